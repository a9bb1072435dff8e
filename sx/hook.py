"""Import hook: executes sporco's own source with numpy / scipy / pyfftw /
numexpr / multiprocessing replaced by symbolic models."""
from __future__ import annotations
import builtins
import importlib
import importlib.util
import importlib.machinery
import math
import os
import sys
import types
import numpy as np
from . import core, val, arr, stubs
from .core import Unsupported
from .val import S, B, DT, DType, as_S, F64, I64, s_floor
from .arr import SymArray, as_sym, make, has_sym

REPO = os.environ.get('VERIF_REPO', '/repo')
LOADED = {}      # module name -> source path (evidence)


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


def _tosym(r):
    """Concrete float/complex result -> symbolic array."""
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype.kind in 'fc':
        return as_sym(r)
    return r


def _dt(dtype, default=F64):
    return default if dtype is None else DT.unwrap(dtype)


def np_zeros(shape, dtype=float, order='C', **k):
    return make(shape, 0, _dt(dtype))


def np_ones(shape, dtype=None, order='C', **k):
    return make(shape, 1, _dt(dtype))


def np_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        d = fill_value.dt if isinstance(fill_value, S) else np.asarray(
            fill_value if not isinstance(fill_value, SymArray) else 0.0).dtype
    else:
        d = DT.unwrap(dtype)
    if isinstance(fill_value, SymArray):
        r = make(shape, 0, d)
        r[...] = fill_value
        return r
    return make(shape, fill_value, d)


def np_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    r = _conv(obj, dtype, copy is not False)
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def _conv(obj, dtype, cp):
    d = None if dtype is None else DT.unwrap(dtype)
    if d is not None and d == object:
        a = np.empty(len(obj), dtype=object) if isinstance(obj, (tuple, list)) and has_sym(obj) else None
        if a is not None:
            for i, x in enumerate(obj):
                a[i] = x
            return a
        return np.asarray(obj, dtype=object)
    if isinstance(obj, stubs.Factor):
        return obj
    if isinstance(obj, SymArray):
        if d is None or d == obj._dt:
            return obj.copy() if cp else obj
        return obj.astype(d)
    if isinstance(obj, (S, B)):
        r = arr.wrap0(obj)
        return r if d is None else r.astype(d)
    if has_sym(obj):
        r = arr.from_list(list(obj))
        return r if d is None else r.astype(d)
    r = np.array(obj, dtype=d) if cp else np.asarray(obj, dtype=d)
    return _tosym(r)


def np_asarray(obj, dtype=None, order=None, **k):
    return _conv(obj, dtype, False)


def np_eye(N, M=None, k=0, dtype=float, **kw):
    return _tosym(np.eye(int(N), None if M is None else int(M), k, dtype=DT.unwrap(dtype)))


def np_identity(n, dtype=None, **k):
    return _tosym(np.identity(int(n), dtype=_dt(dtype)))


def np_arange(*a, dtype=None, **k):
    a = [x.concrete() if isinstance(x, S) else x for x in a]
    a = [int(x) if isinstance(x, float) and x == int(x) and False else x for x in a]
    return _tosym(np.arange(*a, dtype=None if dtype is None else DT.unwrap(dtype)))


def np_linspace(a, b, num=50, **k):
    if isinstance(a, S) or isinstance(b, S):
        a, b = as_S(a), as_S(b)
        n = int(num)
        ep = k.get('endpoint', True)
        dv = (n - 1) if ep else n
        return arr.from_list([a + (b - a) * val.S(core.pconst(core.Fraction(i, dv or 1)))
                              for i in range(n)])
    n = int(num)
    if float(a) == int(a) and float(b) == int(b) and n > 1 and not k:
        return arr.from_list([S(core.pconst(core.Fraction(int(a)) + core.Fraction(
            (int(b) - int(a)) * i, n - 1))) for i in range(n)])
    return _tosym(np.linspace(a, b, n, **k))


def np_iscomplexobj(x):
    return arr.f_iscomplexobj(x)


def np_issubdtype(a, b):
    return np.issubdtype(_u(a), _u(b))


def _u(x):
    if isinstance(x, DT):
        return x.d
    if isinstance(x, DType):
        return x.t
    return x


def np_result_type(*a):
    return DT.wrap(np.result_type(*[
        DT.unwrap(x.dtype) if isinstance(x, (S, SymArray)) else _u(x) for x in a]))


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (DT, np.dtype))

    def __call__(cls, x=None, *a, **k):
        return DT.wrap(DT.unwrap(x))


class np_dtype(metaclass=_DTMeta):
    pass


class SymVectorize:
    def __init__(self, pyfunc, otypes=None, **k):
        self.f = pyfunc
        self.otypes = otypes

    def __call__(self, *args):
        sym = any(has_sym(a) for a in args)
        objs = []
        anyobj = False
        for a in args:
            if isinstance(a, SymArray):
                objs.append(a.raw)
            else:
                x = a if isinstance(a, np.ndarray) else np.asarray(a)
                objs.append(x)
        bs = np.broadcast_arrays(*objs)
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(bs[0].shape):
            out[i] = self.f(*[b[i] for b in bs])
        ot = self.otypes[0] if self.otypes else None
        if ot is not None and not isinstance(ot, str) and DT.unwrap(ot) == object:
            return out
        if ot is not None and not isinstance(ot, str):
            return arr.from_obj(out).astype(DT.unwrap(ot))
        return arr.from_obj(out) if out.size else out


def np_isscalar(x):
    return isinstance(x, (S, B)) or np.isscalar(x)


class _Concat:
    """np.r_ / np.c_ for arguments with symbolic elements."""

    def __init__(self, real, cols):
        self.real, self.cols = real, cols

    def __getitem__(self, key):
        k = key if isinstance(key, tuple) else (key,)
        if not any(has_sym(x) for x in k):
            return _tosym(self.real[key])
        if any(isinstance(x, (str, slice)) for x in k):
            raise Unsupported('index concatenation')
        a = [np.atleast_1d(as_sym(x)) for x in k]
        if self.cols:
            return np.concatenate([x[:, np.newaxis] if x.ndim == 1 else x for x in a], axis=-1)
        return np.concatenate(a, axis=0)


def np_fromiter(it, dtype=float, count=-1, **k):
    r = list(it)
    return np_array(r, dtype=dtype) if has_sym(r) else _tosym(np.fromiter(r, dtype=DT.unwrap(dtype)))


def np_as_strided(x, shape=None, strides=None, **k):
    if isinstance(x, SymArray):
        return arr.f_as_strided(x, shape, strides)
    return np.lib.stride_tricks.as_strided(x, shape, strides, **k)


def np_finfo(x):
    if isinstance(x, (S, SymArray)):
        x = x.dtype
    return np.finfo(_u(x))


def _pass(fn):
    """Call real numpy creation function, convert float result."""
    def f(*a, **k):
        k = {q: _u(v) for q, v in k.items()}
        return _tosym(fn(*[_u(x) for x in a], **k))
    return f


def np_reshape(a, shape=None, *args, **k):
    if isinstance(a, (list, tuple)):
        a = np_asarray(a)
    if shape is None and 'newshape' in k:
        shape = k.pop('newshape')
    return np.reshape(a, shape, *args, **k)


def np_where(c, *ab):
    if not ab:
        return np.nonzero(arr.concretize_mask(c))
    if not (has_sym(c) or has_sym(ab)):
        return _tosym(np.where(c, *ab))
    return arr.f_where(c, *ab)


def _lift(fn):
    """Ensure list/tuple arguments containing symbols are converted."""
    def f(*a, **k):
        a = [arr.from_list(list(x)) if isinstance(x, (list, tuple)) and has_sym(x)
             and not any(isinstance(q, SymArray) for q in x) else x for x in a]
        return fn(*a, **k)
    return f


def np_sqrt(x, *a, **k):
    if isinstance(x, (int, float, np.integer, np.floating)) and not a and not k \
            and not isinstance(x, bool) and 0 < x < 1e12:
        r = val.s_sqrt(as_S(float(x)))
        if not r.isconst:
            return r            # exact surd, not a rounded value
    return np.sqrt(x, *a, **k)


def np_cos(x, *a, **k):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind == 'f' and not a and not k:
        x = as_sym(x)           # exact for rational multiples of pi
    return np.cos(x, *a, **k)


def np_sinc(x, *a, **k):
    s = as_sym(x)
    out = np.empty(s.shape, dtype=object)
    for i in np.ndindex(s.shape):
        out[i] = arr.s_sinc(as_S(s.raw[i]))
    r = arr.wrap(out, F64)
    return r if s.shape or isinstance(x, np.ndarray) else as_S(out[()])


def np_sign(x, *a, **k):
    return np.sign(x, *a, **k)


def np_ascontig(a, dtype=None, **k):
    r = np_asarray(a, dtype=dtype)
    if isinstance(r, SymArray):
        if not r.raw.flags.c_contiguous:
            r = arr.wrap(np.ascontiguousarray(r.raw), r._dt)
        if r.ndim == 0:
            r = r.reshape(1)
    return r


def make_numpy():
    st = Proxy(np.lib.stride_tricks, {'as_strided': np_as_strided})
    lib = Proxy(np.lib, {'stride_tricks': st})
    over = dict(
        zeros=np_zeros, ones=np_ones, empty=np_zeros, full=np_full,
        array=np_array, asarray=np_asarray, asanyarray=np_asarray,
        ascontiguousarray=np_ascontig, asfortranarray=np_asarray,
        require=np_asarray,
        eye=np_eye, identity=np_identity, arange=np_arange,
        linspace=np_linspace, iscomplexobj=np_iscomplexobj,
        isrealobj=lambda x: not np_iscomplexobj(x),
        issubdtype=np_issubdtype, result_type=np_result_type,
        promote_types=lambda a, b: DT.wrap(np.promote_types(_u(a), _u(b))),
        dtype=np_dtype, vectorize=SymVectorize, isscalar=np_isscalar,
        lib=lib, finfo=np_finfo, frombuffer=stubs.frombuffer,
        zeros_like=arr.f_like(0), ones_like=arr.f_like(1), empty_like=arr.f_like(0),
        full_like=arr.f_full_like,
        reshape=np_reshape, where=np_where,
        mgrid=np.mgrid, r_=_Concat(np.r_, False), c_=_Concat(np.c_, True), fromiter=np_fromiter,
        can_cast=lambda *a, **k: True,
        max=_lift(np.max), min=_lift(np.min), sum=_lift(np.sum),
        mean=_lift(np.mean), sqrt=np_sqrt, cos=np_cos, sinc=np_sinc, tile=np.tile,
        nan_to_num=np.nan_to_num, mintypecode=np.mintypecode,
    )
    return Proxy(np, over)


def sym_if(symfn, realfn, conv=True):
    def f(*a, **k):
        if any(has_sym(x) or isinstance(x, stubs.Factor) for x in a) or any(
                has_sym(v) for v in k.values()):
            return symfn(*a, **k)
        return realfn(*a, **k)
    return f


FFTN = ('fftn', 'ifftn', 'rfftn', 'irfftn', 'fft', 'ifft', 'rfft', 'irfft',
        'fft2', 'ifft2', 'rfft2', 'irfft2')


def build():
    NP = make_numpy()
    fftover = {n: getattr(stubs, n) for n in FFTN}
    NP.__dict__['fft'] = Proxy(np.fft, dict(fftover))
    P = {'numpy': NP, 'numpy.fft': NP.fft}
    import scipy
    import scipy.linalg, scipy.fftpack, scipy.fft, scipy.optimize
    import scipy.sparse.linalg, scipy.ndimage, scipy.signal, scipy.interpolate
    dover = dict(dct=stubs.dct, idct=stubs.idct, dctn=stubs.dctn, idctn=stubs.idctn)
    sfp = Proxy(scipy.fftpack, dict(fftover, **dover))
    sfft = Proxy(scipy.fft, dict(fftover, **dover))
    sla = Proxy(scipy.linalg, dict(
        lu_factor=stubs.lu_factor, lu_solve=stubs.lu_solve,
        cho_factor=stubs.cho_factor, cho_solve=stubs.cho_solve,
        solve=stubs.la_solve, norm=arr.f_norm,
        svd=lambda a, full_matrices=True, compute_uv=True, **k: stubs.svd(a, full_matrices, compute_uv),
        eigh=lambda a, **k: stubs.eigh(a), inv=lambda a, **k: arr.f_inv(a)))
    ssl = Proxy(scipy.sparse.linalg, dict(LinearOperator=stubs.LinearOperator, cg=stubs.cg))
    ssp = Proxy(scipy.sparse, dict(linalg=ssl))
    sop = Proxy(scipy.optimize, dict(brentq=stubs.brentq, bisect=stubs.brentq,
                                     brenth=stubs.brentq,
                                     linprog=sym_if(stubs.linprog, scipy.optimize.linprog)))
    ssg = Proxy(scipy.signal, dict(convolve2d=stubs.convolve2d, **{
        n: sym_if(stubs.convolve_nd(n), getattr(scipy.signal, n)) for n in ('convolve', 'fftconvolve', 'oaconvolve', 'correlate')}))
    snd = Proxy(scipy.ndimage, dict(
        **{n: sym_if(stubs.lin_filter(getattr(scipy.ndimage, n)), getattr(scipy.ndimage, n)) for n in (
            'convolve', 'convolve1d', 'correlate', 'correlate1d', 'uniform_filter', 'uniform_filter1d', 'gaussian_filter1d',
            'zoom', 'shift', 'laplace', 'sobel', 'prewitt', 'rotate')}, gaussian_filter=sym_if(stubs.gaussian_filter, scipy.ndimage.gaussian_filter)))
    sin = Proxy(scipy.interpolate, dict(
        griddata=sym_if(stubs.griddata, scipy.interpolate.griddata),
        **{n: sym_if(stubs.interpolator(n), getattr(scipy.interpolate, n))
           for n in ('RectBivariateSpline', 'LinearNDInterpolator', 'NearestNDInterpolator', 'RegularGridInterpolator')}))
    sc = Proxy(scipy, dict(linalg=sla, fftpack=sfp, fft=sfft, optimize=sop,
                           sparse=ssp, signal=ssg, ndimage=snd,
                           interpolate=sin))
    P.update({'scipy': sc, 'scipy.linalg': sla, 'scipy.fftpack': sfp,
              'scipy.fft': sfft, 'scipy.optimize': sop, 'scipy.sparse': ssp,
              'scipy.sparse.linalg': ssl, 'scipy.signal': ssg, 'scipy.ndimage': snd, 'scipy.interpolate': sin})
    # pyfftw model
    pf = types.ModuleType('pyfftw')

    def empty_aligned(shape, dtype='float64', order='C', n=None):
        return np_zeros(shape, dtype)

    def byte_align(a, n=None, dtype=None):
        return np_asarray(a, dtype=dtype)
    pf.empty_aligned = empty_aligned
    pf.zeros_aligned = empty_aligned
    pf.ones_aligned = lambda shape, dtype='float64', order='C', n=None: np_ones(shape, dtype)
    pf.byte_align = byte_align
    pf.is_byte_aligned = lambda a, n=None: True
    pf.simd_alignment = 16
    itf = types.ModuleType('pyfftw.interfaces')
    nf = types.ModuleType('pyfftw.interfaces.numpy_fft')
    for n in FFTN:
        setattr(nf, n, fftover[n])
    sf = types.ModuleType('pyfftw.interfaces.scipy_fftpack')
    for n, f in dict(fftover, **dover).items():
        setattr(sf, n, f)
    ch = types.ModuleType('pyfftw.interfaces.cache')
    ch.enable = lambda: None
    ch.disable = lambda: None
    ch.set_keepalive_time = lambda t: None
    ch.is_enabled = lambda: True
    itf.numpy_fft, itf.cache, itf.scipy_fftpack, itf.scipy_fft = nf, ch, sf, sf
    pf.interfaces = itf
    P.update({'pyfftw': pf, 'pyfftw.interfaces': itf,
              'pyfftw.interfaces.numpy_fft': nf, 'pyfftw.interfaces.cache': ch})
    ne = types.ModuleType('numexpr')
    ne.evaluate = lambda ex, *a, **k: stubs.ne_evaluate(ex, *a, _frame_depth=2, **k)
    ne.set_num_threads = lambda n: None
    ne.set_vml_num_threads = lambda n: None
    ne.__version__ = '2.0'
    P['numexpr'] = ne
    import multiprocessing
    mpx = Proxy(multiprocessing, dict(RawArray=stubs.FakeRaw, Pool=stubs.FakePool))
    P['multiprocessing'] = mpx
    P['multiprocessing.pool'] = Proxy(multiprocessing.pool, dict(Pool=stubs.FakePool)) \
        if hasattr(multiprocessing, 'pool') else mpx
    mth = types.ModuleType('math')
    mth.__dict__.update({n: getattr(math, n) for n in dir(math)})
    for n in ('sqrt', 'exp', 'log', 'log10', 'floor', 'ceil'):
        def g(x, *a, _n=n):
            if isinstance(x, (S, SymArray)):
                return getattr(as_S(x), _n)()
            return getattr(math, _n)(x, *a)
        setattr(mth, n, g)
    mth.fabs = lambda x: abs(x)
    P['math'] = mth
    return P


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, S)) and not (isinstance(o, S) and o.dt.kind != 'f')

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class symfloat(metaclass=_FloatMeta):
    dtype = F64

    def __new__(cls, x=0.0):
        if isinstance(x, S):
            if x.isconst:
                return x
            return x.real if x.dt.kind == 'c' else x.astype(F64)
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return as_S(x.raw.ravel()[0])
        if isinstance(x, B):
            return x.s()
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class symint(metaclass=_IntMeta):
    """int(x): truncation towards zero of a symbolic value"""
    dtype = I64

    def __new__(cls, x=0, *a):
        if isinstance(x, SymArray) and x.size == 1:
            x = as_S(x.raw.ravel()[0])
        if isinstance(x, S) and not x.isconst:
            if x.dt.kind in 'iu':
                return x
            f = s_floor(x) if bool(x >= 0) else -s_floor(-x)
            return S(f.re, f.im, I64)
        return int(x, *a)


def symmax(*a, **k):
    v = a[0] if len(a) == 1 else a
    if isinstance(v, SymArray):
        v = list(v)
    v = list(v)
    if k or not any(isinstance(x, (S, SymArray)) for x in v):
        return max(*a, **k)
    r = v[0]
    for x in v[1:]:
        r = val.s_max(r, x)
    return r


def symmin(*a, **k):
    v = a[0] if len(a) == 1 else a
    if isinstance(v, SymArray):
        v = list(v)
    v = list(v)
    if k or not any(isinstance(x, (S, SymArray)) for x in v):
        return min(*a, **k)
    r = v[0]
    for x in v[1:]:
        r = val.s_min(r, x)
    return r


PROX = None
_real_import = builtins.__import__


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in PROX:
        if fromlist:
            return PROX[name]
        top = name.split('.')[0]
        if top != name:
            _real_import(name)
        return PROX[top]
    if level == 0 and name.split('.')[0] in ('scipy', 'numpy') and not fromlist:
        m = _real_import(name)
        return PROX[name.split('.')[0]]
    return _real_import(name, globals, locals, fromlist, level)


class Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        b = dict(vars(builtins))
        b['__import__'] = sym_import
        b['float'] = symfloat
        b['int'] = symint
        b['max'] = symmax
        b['min'] = symmin
        module.__dict__['__builtins__'] = b
        src = self.get_data(self.path)
        code = compile(src, self.path, 'exec')
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)

    def get_code(self, fullname):
        return compile(self.get_data(self.path), self.path, 'exec')


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name != 'sporco' and not name.startswith('sporco.'):
            return None
        rel = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(rel):
            f = os.path.join(rel, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, f, loader=Loader(name, f), submodule_search_locations=[rel])
        f = rel + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install():
    global PROX
    if PROX is not None:
        return
    PROX = build()
    for m in list(sys.modules):
        if m == 'sporco' or m.startswith('sporco.'):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder())
