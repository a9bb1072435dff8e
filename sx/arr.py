"""Symbolic ndarray: an object-dtype ndarray subclass that claims a numeric
dtype, with ufunc / array-function dispatch over symbolic scalars."""
from __future__ import annotations
import itertools
import math
import operator
from fractions import Fraction
import numpy as np
from . import core, val
from .core import Unsupported, ZERO, ONE, pconst, pscale, padd, psub, pmul
from .val import (S, B, DT, DType, as_S, asB, mkB, ENG, F64, C128, I64, BOOL, DEFDT,
                  s_where, s_max, s_min, s_sign, s_abs, s_sqrt, s_cmp,
                  s_isnan, s_isinf, s_isfinite, s_neg, s_mul, s_add, s_div,
                  real_dt, band, bor, bnot)

OBJ = np.dtype(object)


def elem(v, kind):
    """Coerce a raw value to an element for an array of the claimed kind."""
    if kind == 'b':
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, B):
            return v
        if isinstance(v, S):
            return v != 0
        return bool(v)
    if isinstance(v, S):
        return v
    return as_S(v)


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        if obj is not None:
            self._dt = getattr(obj, '_dt', None) or F64

    # ---- dtype claims
    @property
    def dtype(self):
        return DT.wrap(self._dt)

    @property
    def itemsize(self):
        return 8

    @property
    def raw(self):
        return self.view(np.ndarray)

    def __getitem__(self, idx):
        idx = fix_index(idx)
        if isinstance(idx, SymMask):
            return MaskSel(self, idx.m)
        r = np.ndarray.__getitem__(self.raw, idx)
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r._dt = self._dt
            return r
        return scal(r, self._dt)

    def __setitem__(self, idx, v):
        idx = fix_index(idx)
        if isinstance(idx, SymMask):
            m = idx.m
            cur = self.raw
            if isinstance(v, MaskSel):
                src = v.full
            else:
                src = v
            new = where3(m, as_sym(src, self._dt), self)
            cur[...] = cast_raw(new, self._dt)
            return
        if all(isinstance(i, (int, np.integer)) and not isinstance(i, bool) for i in (idx if isinstance(idx, tuple) else (idx,))):
            # a full integer index would store a 0-d array object
            idx = (idx if isinstance(idx, tuple) else (idx,)) + (Ellipsis,)
        if isinstance(v, (S, B)):
            tmp = np.empty((), dtype=object)
            tmp[()] = cast_elem(v, self._dt)
            np.ndarray.__setitem__(self.raw, idx, tmp)
            return
        if isinstance(v, SymArray):
            np.ndarray.__setitem__(self.raw, idx, cast_raw(v, self._dt))
            return
        v = as_sym(np.asarray(v) if not isinstance(v, (list, tuple)) else v)
        np.ndarray.__setitem__(self.raw, idx, cast_raw(v, self._dt))

    def __array_ufunc__(self, ufunc, method, *a, **k):
        return ufunc_dispatch(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- methods
    @property
    def real(self):
        if self._dt.kind != 'c':
            return self
        return mapel(lambda x: S(x.re, ZERO, real_dt(self._dt), x.sp), self,
                     real_dt(self._dt))

    @real.setter
    def real(self, v):
        v = as_sym(v)
        r = self.raw
        vb = np.broadcast_to(v.raw, self.shape)
        for i in np.ndindex(self.shape):
            r[i] = S(as_S(vb[i]).re, r[i].im, self._dt)

    @property
    def imag(self):
        if self._dt.kind != 'c':
            return wrap(filled(self.shape, ZERO_S), self._dt)
        return mapel(lambda x: S(x.im, ZERO, real_dt(self._dt), x.sp), self,
                     real_dt(self._dt))

    @imag.setter
    def imag(self, v):
        v = as_sym(v)
        r = self.raw
        vb = np.broadcast_to(v.raw, self.shape)
        for i in np.ndindex(self.shape):
            r[i] = S(r[i].re, as_S(vb[i]).re, self._dt)

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    def astype(self, dt, *a, copy=True, **k):
        d = DT.unwrap(dt)
        if d == OBJ:
            return self.copy()
        if not copy and d == self._dt:
            return self
        return wrap(cast_raw(self, d, cp=True), d)

    def copy(self, order='C'):
        return wrap(self.raw.copy(order), self._dt)

    def item(self, *a):
        return scal(self.raw.item(*a), self._dt)

    def tolist(self):
        return self.raw.tolist()

    def flatten(self, order='C'):
        return wrap(self.raw.flatten(order), self._dt)

    def ravel(self, order='C'):
        r = self.raw.ravel(order).view(SymArray)
        r._dt = self._dt
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_sum(self, axis=axis, keepdims=keepdims, dtype=dtype, out=out, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_with(operator.mul, self, axis, keepdims, self._dt, 1)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(f_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_with(s_max, self, axis, keepdims, self._dt, None, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_with(s_min, self, axis, keepdims, self._dt, None, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return f_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return f_all(self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis=axis)

    def dot(self, o, out=None):
        return f_dot(self, o, out=out)

    def argmax(self, axis=None, out=None, keepdims=False):
        return f_argmax(self, axis=axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return f_argmax(-self, axis=axis, keepdims=keepdims)

    def argsort(self, axis=-1, **k):
        return f_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self.raw[...] = f_sort(self, axis).raw

    def clip(self, a_min=None, a_max=None, out=None, min=None, max=None, **k):
        return f_clip(self, a_min if a_min is not None else min,
                      a_max if a_max is not None else max, out=out)

    def fill(self, v):
        self[...] = v

    def round(self, *a, **k):
        raise Unsupported('round')

    def nonzero(self):
        m = concretize_mask(self != 0)
        return np.nonzero(m)

    def trace(self, *a, **k):
        return function_dispatch(np.trace, (self,) + a, k)

    def diagonal(self, *a, **k):
        return wrap(self.raw.diagonal(*a, **k), self._dt)

    def take(self, idx, axis=None, **k):
        return wrap(self.raw.take(idx, axis=axis), self._dt)

    def repeat(self, n, axis=None):
        return wrap(self.raw.repeat(n, axis), self._dt)

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if a and a[0] is SymArray:
            return np.ndarray.view(self, SymArray)
        if not a and not k:
            return np.ndarray.view(self)
        raise Unsupported('dtype view')

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        e = self.raw.ravel()[0]
        if isinstance(e, bool):
            return e
        return bool(e != 0) if isinstance(e, S) else bool(e)

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return float(self.raw.ravel()[0])

    def __int__(self):
        return int(self.raw.ravel()[0])

    def __index__(self):
        return operator.index(self.raw.ravel()[0])

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[k] for k in range(self.shape[0]))

    def __repr__(self):
        return 'SymArray%s<%s>' % (self.shape, self._dt)
    __str__ = __repr__

    def __reduce__(self):
        raise Unsupported('pickling symbolic array')

    def __matmul__(self, o): return f_matmul(self, o)
    def __rmatmul__(self, o): return f_matmul(o, self)


class SymMask:
    def __init__(self, m):
        self.m = m


class MaskSel:
    """Result of selecting with a symbolic mask: lazily keeps full array."""
    def __init__(self, full, mask):
        self.full = full
        self.mask = mask

    def _u(self, f, o):
        if isinstance(o, MaskSel):
            o = o.full
        return MaskSel(f(self.full, o), self.mask)

    def __mul__(self, o): return self._u(operator.mul, o)
    def __rmul__(self, o): return self._u(lambda a, b: b * a, o)
    def __add__(self, o): return self._u(operator.add, o)
    def __radd__(self, o): return self._u(operator.add, o)
    def __sub__(self, o): return self._u(operator.sub, o)
    def __rsub__(self, o): return self._u(lambda a, b: b - a, o)
    def __truediv__(self, o): return self._u(operator.truediv, o)
    def __rtruediv__(self, o): return self._u(lambda a, b: b / a, o)
    def __neg__(self): return MaskSel(-self.full, self.mask)
    def __pow__(self, o): return MaskSel(self.full ** o, self.mask)
    def __abs__(self): return MaskSel(abs(self.full), self.mask)

    def sum(self):
        return f_sum(where3(self.mask, self.full, as_sym(0.0)))

    def __array_ufunc__(self, ufunc, method, *a, **k):
        if method == '__call__':
            a = [x.full if isinstance(x, MaskSel) else x for x in a]
            return MaskSel(ufunc(*a, **k), self.mask)
        raise Unsupported('masked selection ufunc')

    def __array_function__(self, func, types, args, kwargs):
        if func is np.sum and len(args) == 1 and not kwargs:
            return self.sum()
        raise Unsupported('masked selection %s' % func.__name__)


def fix_index(idx):
    """Convert symbolic things in an index to concrete or masks."""
    if isinstance(idx, SymArray):
        if idx._dt.kind == 'b':
            m = mask_concrete(idx)
            return m if m is not None else SymMask(idx)
        return int_array(idx)
    if isinstance(idx, tuple):
        out = []
        for x in idx:
            if isinstance(x, SymArray):
                if x._dt.kind == 'b':
                    m = mask_concrete(x)
                    if m is None:
                        if len(idx) == 1:
                            return SymMask(x)
                        m = concretize_mask(x)
                    out.append(m)
                else:
                    out.append(int_array(x))
            elif isinstance(x, S):
                out.append(int(x))
            elif isinstance(x, B):
                out.append(bool(x))
            else:
                out.append(x)
        return tuple(out)
    if isinstance(idx, B):
        return bool(idx)
    if isinstance(idx, S):
        return int(idx)
    if isinstance(idx, list) and any(isinstance(x, S) for x in idx):
        return [int(x) if isinstance(x, S) else x for x in idx]
    return idx


def int_array(a):
    return np.array([int(x) for x in a.raw.ravel()], dtype=int).reshape(a.shape)


def mask_concrete(m):
    out = np.empty(m.shape, dtype=bool)
    for i in np.ndindex(m.shape):
        e = m.raw[i]
        if isinstance(e, bool):
            out[i] = e
        else:
            return None
    return out


def concretize_mask(m):
    """Fork on each element."""
    if not isinstance(m, SymArray):
        return np.asarray(m)
    out = np.empty(m.shape, dtype=bool)
    for i in np.ndindex(m.shape):
        e = m.raw[i]
        out[i] = e if isinstance(e, bool) else bool(e)
    return out


ZERO_S = S(ZERO)


def filled(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v) if False else None
    flat = a.reshape(-1) if a.ndim else None
    if flat is None:
        a[()] = v
    else:
        for i in range(flat.size):
            flat[i] = v
    return a


def wrap(raw, dt):
    if isinstance(raw, SymArray):
        r = raw
    else:
        r = raw.view(SymArray)
    r._dt = dt
    return r


def wrap0(s):
    a = np.empty((), dtype=object)
    a[()] = s
    return wrap(a, s.dt if isinstance(s, S) else BOOL)


def scal(v, dt):
    """Scalar element -> S with dtype claim / bool."""
    if dt.kind == 'b':
        return v if isinstance(v, (bool, B)) else elem(v, 'b')
    v = as_S(v)
    if v.dt != dt:
        v = S(v.re, v.im if dt.kind == 'c' or v.im.t else ZERO, dt, v.sp)
    return v


def cast_elem(v, dt):
    if dt.kind == 'b':
        return elem(v, 'b')
    v = as_S(v)
    if v.im.t and dt.kind != 'c':
        return S(v.re, ZERO, dt, v.sp)
    if dt.kind in 'iu' and v.dt.kind in 'fc':
        return v.astype(dt)
    return v


def cast_raw(a, dt, cp=False):
    """Raw object array of elements of a cast to claim dt."""
    if a._dt == dt or (a._dt.kind == dt.kind and dt.kind != 'b'):
        return a.raw.copy() if cp else a.raw
    if a._dt.kind == 'f' and dt.kind == 'c':
        return a.raw.copy() if cp else a.raw
    out = np.empty(a.shape, dtype=object)
    r = a.raw
    for i in np.ndindex(a.shape):
        out[i] = cast_elem(r[i], dt)
    return out


def as_sym(v, dt=None):
    """Anything -> SymArray."""
    if isinstance(v, SymArray):
        return v
    if isinstance(v, (S, B)):
        return wrap0(v)
    if isinstance(v, (int, float, complex, bool, np.generic)):
        d = np.asarray(v).dtype
        if isinstance(v, (bool, np.bool_)):
            return wrap0(bool(v)) if False else _wb(bool(v))
        return wrap0(as_S(v))
    if isinstance(v, np.ndarray):
        if v.dtype == OBJ:
            return from_obj(v)
        out = np.empty(v.shape, dtype=object)
        k = v.dtype.kind
        for i in np.ndindex(v.shape):
            out[i] = elem(v[i], k)
        return wrap(out, v.dtype)
    if isinstance(v, (list, tuple)):
        return from_list(v)
    if isinstance(v, range):
        return as_sym(np.array(v))
    if isinstance(v, MaskSel):
        raise Unsupported('masked selection used as array')
    if v is None:
        raise TypeError('None is not an array')
    return as_sym(np.asarray(v))


def _wb(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return wrap(a, BOOL)


def from_obj(v):
    dts = []
    for x in v.ravel():
        if isinstance(x, S):
            dts.append(x.dt)
        elif isinstance(x, (B, bool, np.bool_)):
            dts.append(BOOL)
        elif isinstance(x, (int, float, complex, np.number)):
            dts.append(np.asarray(x).dtype)
        else:
            raise Unsupported('object array of %s' % type(x))
    dt = np.result_type(*dts) if dts else F64
    out = np.empty(v.shape, dtype=object)
    for i in np.ndindex(v.shape):
        out[i] = elem(v[i], dt.kind)
    return wrap(out, dt)


def has_sym(v):
    if isinstance(v, (SymArray, S, B, MaskSel)):
        return True
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    return False


def _cos(a):
    """cosine; exact for constants that are small rational multiples of pi
    (the algorithms mean the exact angle, not its rounded value)"""
    if a.isconst:
        from . import stubs
        q = a.concrete() / math.pi
        for den in (12, 10):
            k = round(q * den)
            if abs(q * den - k) < 1e-12:
                p = stubs.cos_exact(k, den)
                if p is not None:
                    return S(p)
    return val.s_fn('cos', math.cos, a)


def s_sinc(a):
    if a.isconst:
        f = core.snap(float(a.re.const))
        if f == 0:
            return as_S(1)
        if f.denominator == 1:
            return as_S(0)
        a = as_S(abs(f))
    return val.s_fn('sinc', lambda v: float(np.sinc(v)), a)


def from_list(v):
    if not has_sym(v):
        return as_sym(np.array(v))
    parts = [as_sym(x) for x in v]
    shp = parts[0].shape
    for p in parts:
        if p.shape != shp:
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
    dt = np.result_type(*[p._dt for p in parts])
    out = np.empty((len(parts),) + shp, dtype=object)
    for k, p in enumerate(parts):
        out[k] = cast_raw(p, dt)
    return wrap(out, dt)


def claim_of(v):
    """What ufunc.resolve_dtypes wants."""
    if isinstance(v, SymArray):
        return v._dt
    if isinstance(v, S):
        return v.dt
    if isinstance(v, B):
        return BOOL
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, (int,)):
        return int
    if isinstance(v, float):
        return float
    if isinstance(v, complex):
        return complex
    if isinstance(v, (np.ndarray, np.generic)):
        return v.dtype
    return np.asarray(v).dtype


def result_claim(ufunc, ins):
    cl = [claim_of(x) for x in ins]
    try:
        r = ufunc.resolve_dtypes(tuple(cl) + (None,) * ufunc.nout)
        return r[ufunc.nin]
    except Exception:
        cl2 = [np.dtype(c) if isinstance(c, type) else c for c in cl]
        return np.result_type(*cl2)


def mapel(f, a, dt):
    out = np.empty(a.shape, dtype=object)
    r = a.raw
    for i in np.ndindex(a.shape):
        out[i] = f(r[i])
    return wrap(out, dt)


def _logic(op):
    def f(a, b):
        ra, rb = asB(elem(a, 'b')), asB(elem(b, 'b'))
        return mkB(op(ra, rb))
    return f


def _bitwise(sym, intop):
    def f(a, b):
        ra, rb = asB(a), asB(b)
        if ra is None or rb is None:
            ca, cb = as_S(a), as_S(b)
            if ca.isconst and cb.isconst:
                return as_S(intop(int(ca.re.const), int(cb.re.const)))
            raise Unsupported('bitwise op on symbolic numbers')
        return mkB(sym(ra, rb))
    return f


def _add(a, b):
    ra, rb = asB(a), asB(b)
    if ra is not None and rb is not None:
        return mkB(bor(ra, rb))
    return as_S(a) + as_S(b)


def _mul(a, b):
    ra, rb = asB(a), asB(b)
    if ra is not None and rb is not None:
        return mkB(band(ra, rb))
    if ra is not None:
        return sel_mul(ra, as_S(b))
    if rb is not None:
        return sel_mul(rb, as_S(a))
    return as_S(a) * as_S(b)


def sel_mul(c, s):
    if s.sp is not None:
        return S(core.ite_poly(c, ONE, ZERO)) * s
    if c is True:
        return s
    z = S(ZERO, ZERO, s.dt)
    if c is False:
        return z
    return s_where(c, s, z)


def _pow(a, b):
    return as_S(a) ** (b if not isinstance(b, B) else b.s())


def _hypot(a, b):
    a, b = as_S(a), as_S(b)
    return s_sqrt(a * a + b * b)


def _angle(a):
    raise Unsupported('angle')


def _abs(a):
    if isinstance(a, (bool, B)):
        return a
    return s_abs(as_S(a))


def _fmod(a, b):
    return as_S(a) % as_S(b)


UF = {
    'add': _add,
    'subtract': lambda a, b: as_S(a) - as_S(b),
    'multiply': _mul,
    'divide': lambda a, b: as_S(a) / as_S(b),
    'true_divide': lambda a, b: as_S(a) / as_S(b),
    'floor_divide': lambda a, b: as_S(a) // as_S(b),
    'remainder': _fmod,
    'mod': _fmod,
    'power': _pow,
    'float_power': _pow,
    'negative': lambda a: -as_S(a),
    'positive': lambda a: a,
    'absolute': _abs,
    'fabs': _abs,
    'conjugate': lambda a: as_S(a).conjugate(),
    'sqrt': lambda a: s_sqrt(as_S(a)),
    'square': lambda a: as_S(a) * as_S(a),
    'reciprocal': lambda a: as_S(1) / as_S(a),
    'sign': lambda a: s_sign(a),
    'maximum': s_max,
    'minimum': s_min,
    'fmax': s_max,
    'fmin': s_min,
    'exp': lambda a: as_S(a).exp(),
    'log': lambda a: as_S(a).log(),
    'log10': lambda a: as_S(a).log10(),
    'log2': lambda a: val.s_fn('log2', val._safe(math.log2), as_S(a)),
    'log1p': lambda a: (as_S(1) + as_S(a)).log(),
    'sin': lambda a: val.s_fn('sin', math.sin, as_S(a)),
    'cos': lambda a: _cos(as_S(a)),
    'floor': lambda a: as_S(a).floor(),
    'ceil': lambda a: as_S(a).ceil(),
    'rint': lambda a: (as_S(a) + Fraction(1, 2)).floor(),
    'trunc': lambda a: s_where(asB(as_S(a) >= 0), as_S(a).floor(), -((-as_S(a)).floor())),
    'equal': lambda a, b: a == b if asB(a) is None else as_eq(a, b),
    'not_equal': lambda a, b: ~mb(as_eq(a, b)) if asB(a) is not None else as_S(a) != as_S(b),
    'less': lambda a, b: as_S(a) < as_S(b),
    'less_equal': lambda a, b: as_S(a) <= as_S(b),
    'greater': lambda a, b: as_S(a) > as_S(b),
    'greater_equal': lambda a, b: as_S(a) >= as_S(b),
    'logical_and': _logic(band),
    'logical_or': _logic(bor),
    'logical_xor': _logic(lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b))),
    'logical_not': lambda a: mkB(bnot(asB(elem(a, 'b')))),
    'bitwise_and': _bitwise(band, operator.and_),
    'bitwise_or': _bitwise(bor, operator.or_),
    'bitwise_xor': _bitwise(lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b)), operator.xor),
    'invert': lambda a: mkB(bnot(asB(elem(a, 'b')))),
    'isnan': s_isnan,
    'isinf': s_isinf,
    'isfinite': s_isfinite,
    'hypot': _hypot,
    'signbit': lambda a: as_S(a) < 0,
    'heaviside': lambda a, b: s_where(asB(as_S(a) > 0), as_S(1), s_where(asB(as_S(a) == 0), as_S(b), as_S(0))),
    'copysign': lambda a, b: s_where(asB(as_S(b) >= 0), s_abs(as_S(a)), -s_abs(as_S(a))),
}


def mb(x):
    return x if isinstance(x, B) else _NB(x)


class _NB:
    def __init__(self, v): self.v = v
    def __invert__(self): return not self.v


def as_eq(a, b):
    ra, rb = asB(a), asB(b)
    if ra is not None and rb is not None:
        return mkB(bor(band(ra, rb), band(bnot(ra), bnot(rb))))
    return as_S(a) == as_S(b)


BOOLOUT = {'equal', 'not_equal', 'less', 'less_equal', 'greater',
           'greater_equal', 'logical_and', 'logical_or', 'logical_not',
           'logical_xor', 'isnan', 'isinf', 'isfinite', 'signbit'}


def collapse_bool(a):
    """Symbolic bool array -> plain bool array if fully concrete."""
    if a._dt.kind == 'b':
        m = mask_concrete(a)
        if m is not None:
            return m
    return a


WRAPS = {'add', 'subtract', 'negative', 'absolute', 'multiply', 'square', 'power'}


def wrapint(v, dt, name):
    """modular arithmetic of narrow integer types"""
    v = as_S(v)
    M = 256 ** dt.itemsize
    lo = 0 if dt.kind == 'u' else -M // 2
    hi = lo + M - 1
    if v.isconst:
        n = int(v.re.const)
        return as_S((n - lo) % M + lo)
    if name in ('multiply', 'square', 'power'):
        return v - M * ((v - lo) / M).floor()
    return s_where(asB(v < lo), v + M, s_where(asB(v > hi), v - M, v))


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    for x in inputs:
        if isinstance(x, MaskSel):
            return x.__array_ufunc__(ufunc, method, *inputs, **kwargs)
    if method == '__call__':
        if name == 'matmul':
            return f_matmul(*inputs, out=_single(kwargs.get('out')))
        if name == 'vecdot':
            return f_sum(np.conj(as_sym(inputs[0])) * as_sym(inputs[1]), axis=kwargs.get('axis', -1))
        if name == 'fmod':
            x, y = as_sym(inputs[0]), as_sym(inputs[1])
            return np.sign(x) * np.remainder(np.abs(x), np.abs(y))
        if name == 'divmod':
            return (ufunc_dispatch(np.floor_divide, '__call__', inputs, {}),
                    ufunc_dispatch(np.remainder, '__call__', inputs, {}))
        f = UF.get(name)
        if f is None:
            raise Unsupported('ufunc %s' % name)
        out = _single(kwargs.pop('out', None))
        wh = kwargs.pop('where', True)
        dtype = kwargs.pop('dtype', None)
        casting = kwargs.pop('casting', None)
        dt = result_claim(ufunc, inputs)
        if name in BOOLOUT:
            dt = BOOL
        if name == 'absolute' and dt.kind == 'c':
            dt = real_dt(dt)
        if dtype is not None:
            dt = DT.unwrap(dtype)
        arrs = [as_sym(x).raw for x in inputs]
        scalar_out = all(a.ndim == 0 for a in arrs) and out is None
        raws = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
        shp = raws[0].shape
        wraw = None
        if wh is not True:
            wraw = as_sym(wh).raw
            shp = np.broadcast_shapes(shp, wraw.shape)
            if out is not None:
                shp = np.broadcast_shapes(shp, out.shape)
            raws = [np.broadcast_to(r, shp) for r in raws]
            wraw = np.broadcast_to(wraw, shp)
        res = np.empty(shp, dtype=object)
        if wraw is None:
            if len(raws) == 1:
                r0 = raws[0]
                for i in np.ndindex(shp):
                    res[i] = f(r0[i])
            else:
                r0, r1 = raws
                for i in np.ndindex(shp):
                    res[i] = f(r0[i], r1[i])
        else:
            o = np.broadcast_to(as_sym(out).raw, shp) if out is not None else None
            for i in np.ndindex(shp):
                c = asB(elem(wraw[i], 'b'))
                prev = o[i] if o is not None else ZERO_S
                if c is False:
                    res[i] = prev
                    continue
                # evaluate under the guard: domain errors masked out
                if c is True:
                    res[i] = f(*[r[i] for r in raws])
                else:
                    ENG.path.append(c)
                    try:
                        v = f(*[r[i] for r in raws])
                    finally:
                        ENG.path.pop()
                    res[i] = s_where(c, v, prev)
        if dt.kind in 'iu' and dt.itemsize <= 2 and name in WRAPS:
            for i in np.ndindex(shp):
                res[i] = wrapint(res[i], dt, name)
        res = wrap(res, dt)
        if out is not None:
            return store_out(out, res)
        if scalar_out:
            v = res.raw[()]
            return v if dt.kind == 'b' else scal(v, dt)
        return collapse_bool(res)
    if method == 'reduce':
        a = as_sym(inputs[0])
        axis = kwargs.get('axis', 0)
        kd = kwargs.get('keepdims', False)
        out = _single(kwargs.get('out'))
        init = kwargs.get('initial', None)
        if init is np._NoValue:
            init = None
        if name == 'add':
            r = f_sum(a, axis=axis, keepdims=kd, initial=init)
        elif name == 'multiply':
            r = reduce_with(operator.mul, a, axis, kd, a._dt, 1)
        elif name == 'maximum':
            r = reduce_with(s_max, a, axis, kd, a._dt, None, initial=init)
        elif name == 'minimum':
            r = reduce_with(s_min, a, axis, kd, a._dt, None, initial=init)
        elif name == 'logical_and':
            r = f_all(a, axis=axis, keepdims=kd)
        elif name == 'logical_or':
            r = f_any(a, axis=axis, keepdims=kd)
        else:
            raise Unsupported('%s.reduce' % name)
        if out is not None:
            return store_out(out, as_sym(r))
        return r
    if method == 'reduceat':
        a = as_sym(inputs[0])
        ax = kwargs.get('axis', 0)
        ind = [int(q) for q in np.asarray(inputs[1])]
        m = wrap(np.moveaxis(a.raw, ax, 0), a._dt)
        rows = []
        for q, i in enumerate(ind):
            j = ind[q + 1] if q + 1 < len(ind) else m.shape[0]
            rows.append(ufunc_dispatch(ufunc, 'reduce', (m[i:j] if j > i else m[i:i + 1],), {'axis': 0}))
        return np.moveaxis(np.stack([as_sym(r) for r in rows]), 0, ax)
    if method == 'accumulate' and name == 'add':
        return f_cumsum(as_sym(inputs[0]), axis=kwargs.get('axis', 0))
    if method == 'accumulate':
        f = UF[name]
        a = as_sym(inputs[0])
        ax = kwargs.get('axis', 0)
        r = np.moveaxis(a.raw, ax, 0).copy()
        for k in range(1, r.shape[0]):
            for i in np.ndindex(r.shape[1:]):
                r[(k,) + i] = f(r[(k - 1,) + i], r[(k,) + i])
        return wrap(np.moveaxis(r, 0, ax), a._dt)
    if method == 'outer':
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        return ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx, v = inputs if len(inputs) == 3 else (inputs + (None,))
        if name in ('add', 'subtract'):
            raw = a.raw
            ids = np.arange(a.size).reshape(a.shape)[fix_index(idx)]
            vv = np.broadcast_to(as_sym(v).raw, ids.shape)
            flat = raw.reshape(-1)
            f = UF[name]
            for i in np.ndindex(ids.shape):
                pos = np.unravel_index(ids[i], a.shape)
                raw[pos] = f(raw[pos], vv[i])
            return None
    raise Unsupported('ufunc method %s.%s' % (name, method))


def _single(o):
    if isinstance(o, tuple):
        return o[0] if len(o) == 1 else o
    return o


def store_out(out, res):
    if isinstance(out, SymArray):
        if res.shape != out.shape:
            np.broadcast_shapes(res.shape, out.shape)
            if np.broadcast_shapes(res.shape, out.shape) != out.shape:
                raise ValueError('non-broadcastable output operand with shape %s '
                                 'doesn\'t match the broadcast shape %s' % (
                                     out.shape, res.shape))
        if res._dt.kind == 'c' and out._dt.kind != 'c':
            raise TypeError("Cannot cast ufunc output from complex to real")
        if res._dt.kind in 'fc' and out._dt.kind in 'iu':
            raise TypeError("Cannot cast ufunc output from float to integer")
        out.raw[...] = cast_raw(res, out._dt)
        return out
    if isinstance(out, np.ndarray):
        if out.dtype == OBJ:
            out[...] = res.raw
            return out
        if res._dt.kind in 'fc' and out.dtype.kind in 'iu':
            raise TypeError("Cannot cast ufunc output from float to integer")
        o = np.empty(res.shape, dtype=out.dtype)
        for i in np.ndindex(res.shape):
            e = res.raw[i]
            o[i] = bool(e) if out.dtype.kind == 'b' else as_S(e).concrete()
        out[...] = o
        return out
    raise Unsupported('out argument of type %s' % type(out))


# ---------------------------------------------------------- reductions

def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    out = []
    for a in axis:
        a = operator.index(a)
        if a < -nd or a >= nd:
            raise np.exceptions.AxisError(a, nd)
        out.append(a % nd)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def reduce_with(f, a, axis, keepdims, dt, empty, initial=None, where=None, **k):
    a = as_sym(a)
    axes = norm_axes(axis, a.ndim)
    keep = [d for d in range(a.ndim) if d not in axes]
    r = a.raw.transpose(keep + list(axes))
    oshp = tuple(a.shape[d] for d in keep)
    r = r.reshape(oshp + (-1,)) if a.size else r.reshape(
        oshp + (int(np.prod([a.shape[d] for d in axes])),))
    res = np.empty(oshp, dtype=object)
    for i in np.ndindex(oshp):
        row = r[i]
        acc = None if initial is None or initial is np._NoValue else as_S(initial)
        for e in row:
            acc = e if acc is None else f(acc, e)
        if acc is None:
            if empty is None:
                raise ValueError('zero-size array to reduction operation '
                                 'which has no identity')
            acc = elem(empty, dt.kind)
        res[i] = acc
    if keepdims and keepdims is not np._NoValue:
        res = res.reshape(tuple(1 if d in axes else a.shape[d]
                                for d in range(a.ndim)))
        return collapse_bool(wrap(res, dt)) if dt.kind == 'b' else wrap(res, dt)
    if res.ndim == 0:
        v = res[()]
        return elem(v, 'b') if dt.kind == 'b' else scal(v, dt)
    return collapse_bool(wrap(res, dt)) if dt.kind == 'b' else wrap(res, dt)


def _sadd(a, b):
    return as_S(a) + as_S(b)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=np._NoValue):
    a = as_sym(a)
    if where is not np._NoValue and where is not True:
        a = where3(as_sym(where), a, as_sym(0))
    dt = a._dt
    if dt.kind == 'b' or (dt.kind in 'iu' and dt.itemsize < 8):
        dt = I64
    if dtype is not None:
        dt = DT.unwrap(dtype)
    r = reduce_with(_sadd, a, axis, keepdims, dt, 0, initial=initial)
    if out is not None:
        return store_out(out, as_sym(r))
    return r


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    axes = norm_axes(axis, a.ndim)
    n = 1
    for d in axes:
        n *= a.shape[d]
    r = f_sum(a, axis=axis, keepdims=keepdims)
    r = r / n
    if out is not None:
        return store_out(out, as_sym(r))
    return r


def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return f_mean(a, axis=axis)
    a, w = as_sym(a), as_sym(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        ax = axis % a.ndim
        if w.shape[0] != a.shape[ax]:
            raise ValueError('Length of weights not compatible with specified axis.')
        w = w.reshape((1,) * ax + (w.shape[0],) + (1,) * (a.ndim - ax - 1))
    num = f_sum(a * w, axis=axis)
    den = f_sum(a * 0 + w, axis=axis)
    return num / den


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = as_sym(a)
    axes = norm_axes(axis, a.ndim)
    n = 1
    for d in axes:
        n *= a.shape[d]
    m = f_mean(a, axis=axes, keepdims=True)
    d = a - m
    if a._dt.kind == 'c':
        d2 = (d * np.conj(d)).real
    else:
        d2 = d * d
    return f_sum(d2, axis=axes, keepdims=keepdims) / (n - ddof)


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(f_var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def f_any(a, axis=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    return reduce_with(_logic(bor), boolify(a), axis, keepdims, BOOL, False)


def f_all(a, axis=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    return reduce_with(_logic(band), boolify(a), axis, keepdims, BOOL, True)


def boolify(a):
    if a._dt.kind == 'b':
        return a
    return mapel(lambda x: elem(x, 'b'), a, BOOL)


def f_cumsum(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    r = np.moveaxis(a.raw, axis, 0)
    o = np.empty(r.shape, dtype=object)
    for i in np.ndindex(r.shape[1:]):
        acc = None
        for k in range(r.shape[0]):
            e = as_S(r[(k,) + i])
            acc = e if acc is None else acc + e
            o[(k,) + i] = acc
    dt = a._dt if a._dt.kind not in 'b' else I64
    return wrap(np.moveaxis(o, 0, axis), dt)


def _best(v, skip):
    """index of the largest element; NaN is skipped, or wins"""
    best = None
    for k_, x in enumerate(v):
        x = as_S(x)
        if x.sp is not None and bool(s_isnan(x)):
            if not skip:
                return k_
            continue
        if best is None or bool(x > as_S(v[best])):
            best = k_
    if best is None:
        raise ValueError('All-NaN slice encountered' if skip else 'attempt to get argmax of an empty sequence')
    return best


def f_argmax(a, axis=None, out=None, keepdims=False, skip=False, **k):
    a = as_sym(a)
    if axis is None:
        best = _best(list(a.raw.ravel()), skip)
        if keepdims and keepdims is not np._NoValue:
            return np.array(best).reshape((1,) * a.ndim)
        return np.int64(best)
    ax = norm_axes(axis, a.ndim)[0]
    r = np.moveaxis(a.raw, ax, 0)
    o = np.empty(r.shape[1:], dtype=int)
    for i in np.ndindex(r.shape[1:]):
        o[i] = _best([r[(k_,) + i] for k_ in range(r.shape[0])], skip)
    if keepdims and keepdims is not np._NoValue:
        o = np.expand_dims(o, ax)
    return o


def f_argmin(a, axis=None, **k):
    return f_argmax(-as_sym(a), axis=axis, **k)


def f_sort(a, axis=-1, **k):
    a = as_sym(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    r = np.moveaxis(a.raw, axis, 0).copy()
    n = r.shape[0]
    for i in np.ndindex(r.shape[1:]):
        v = [as_S(r[(k_,) + i]) for k_ in range(n)]
        # bubble network of min/max
        for p in range(n):
            for q in range(n - 1 - p):
                lo, hi = s_min(v[q], v[q + 1]), s_max(v[q], v[q + 1])
                v[q], v[q + 1] = lo, hi
        for k_ in range(n):
            r[(k_,) + i] = v[k_]
    return wrap(np.moveaxis(r, 0, axis), a._dt)


def f_argsort(a, axis=-1, **k):
    a = as_sym(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    r = np.moveaxis(a.raw, axis, 0)
    o = np.empty(r.shape, dtype=int)
    for i in np.ndindex(r.shape[1:]):
        idx = list(range(r.shape[0]))
        # insertion sort with forking
        for p in range(1, len(idx)):
            q = p
            while q > 0 and bool(as_S(r[(idx[q],) + i]) < as_S(r[(idx[q - 1],) + i])):
                idx[q], idx[q - 1] = idx[q - 1], idx[q]
                q -= 1
        for k_ in range(len(idx)):
            o[(k_,) + i] = idx[k_]
    return np.moveaxis(o, 0, axis)


def f_clip(a, a_min=None, a_max=None, out=None, min=np._NoValue, max=np._NoValue, **k):
    if min is not np._NoValue and min is not None:
        a_min = min
    if max is not np._NoValue and max is not None:
        a_max = max
    r = a if isinstance(a, (S, SymArray)) else as_sym(a)

    def isinf(v, sgn):
        return isinstance(v, (float, np.floating)) and math.isinf(v) and v * sgn > 0
    if a_min is not None and not isinf(a_min, -1):
        r = np.maximum(r, a_min)
    if a_max is not None and not isinf(a_max, 1):
        r = np.minimum(r, a_max)
    if isinstance(r, SymArray) and isinstance(a, SymArray) and r is a:
        r = r.copy()
    if out is not None:
        return store_out(out, as_sym(r))
    return r


# ---------------------------------------------------------- linear algebra

def _sumprod(xs, ys):
    acc = None
    for x, y in zip(xs, ys):
        t = _mul(x, y)
        t = as_S(t)
        acc = t if acc is None else acc + t
    return acc if acc is not None else as_S(0)


def f_dot(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    dt = np.result_type(a._dt, b._dt)
    if a.ndim == 0 or b.ndim == 0:
        r = a * b
    elif b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        res = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(res.shape):
            res[i] = _sumprod(a.raw[i], b.raw)
        r = wrap(res, dt) if res.ndim else scal(res[()], dt)
    else:
        if a.shape[-1] != b.shape[-2]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        bt = np.moveaxis(b.raw, -2, -1)
        res = np.empty(a.shape[:-1] + bt.shape[:-1], dtype=object)
        for i in np.ndindex(a.shape[:-1]):
            for j in np.ndindex(bt.shape[:-1]):
                res[i + j] = _sumprod(a.raw[i], bt[j])
        r = wrap(res, dt)
    if out is not None:
        return store_out(out, as_sym(r))
    return r


def f_matmul(a, b, out=None, **k):
    a, b = as_sym(a), as_sym(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b, out=out)
    dt = np.result_type(a._dt, b._dt)
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    ar = np.broadcast_to(a.raw, bs + a.shape[-2:])
    br = np.broadcast_to(b.raw, bs + b.shape[-2:])
    res = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(bs):
        for p in range(a.shape[-2]):
            for q in range(b.shape[-1]):
                res[i + (p, q)] = _sumprod(ar[i][p], br[i][:, q])
    r = wrap(res, dt)
    return store_out(out, r) if out is not None else r


def f_vdot(a, b):
    a, b = as_sym(a).ravel(), as_sym(b).ravel()
    return f_dot(np.conj(a), b)


def f_einsum(*ops, out=None, optimize=False, **k):
    # normalise to subscript-list form
    if isinstance(ops[0], str):
        spec = ops[0].replace(' ', '')
        arrs = [as_sym(x) for x in ops[1:]]
        if '->' in spec:
            lhs, rhs = spec.split('->')
        else:
            lhs, rhs = spec, None
        ins = []
        for t in lhs.split(','):
            l = []
            i = 0
            while i < len(t):
                if t[i] == '.':
                    l.append(Ellipsis)
                    i += 3
                else:
                    l.append(t[i])
                    i += 1
            ins.append(l)
        if rhs is not None:
            o = []
            i = 0
            while i < len(rhs):
                if rhs[i] == '.':
                    o.append(Ellipsis)
                    i += 3
                else:
                    o.append(rhs[i])
                    i += 1
        else:
            o = None
    else:
        arrs, ins = [], []
        ops = list(ops)
        while len(ops) >= 2:
            arrs.append(as_sym(ops.pop(0)))
            ins.append(list(ops.pop(0)))
        o = list(ops[0]) if ops else None
    nell = 0
    exp = []
    for a, l in zip(arrs, ins):
        if Ellipsis in l:
            nell = max(nell, a.ndim - (len(l) - 1))
    for a, l in zip(arrs, ins):
        if Ellipsis in l:
            n = a.ndim - (len(l) - 1)
            p = l.index(Ellipsis)
            l = l[:p] + [('e', q) for q in range(nell - n, nell)] + l[p + 1:]
        if len(l) != a.ndim:
            raise ValueError('einsum subscripts do not match operand')
        exp.append(l)
    cnt = {}
    for l in exp:
        for x in l:
            cnt[x] = cnt.get(x, 0) + 1
    if o is None:
        o = [('e', q) for q in range(nell)] + sorted(
            [x for x in cnt if not isinstance(x, tuple) and cnt[x] == 1])
    else:
        if Ellipsis in o:
            p = o.index(Ellipsis)
            o = o[:p] + [('e', q) for q in range(nell)] + o[p + 1:]
    size = {}
    for a, l in zip(arrs, exp):
        for x, n in zip(l, a.shape):
            if size.get(x, 1) == 1:
                size[x] = n
            elif n not in (1, size[x]):
                raise ValueError('einsum dimension mismatch')
    sumi = [x for x in size if x not in o]
    dt = np.result_type(*[a._dt for a in arrs])
    oshp = tuple(size[x] for x in o)
    res = np.empty(oshp, dtype=object)
    for oi in np.ndindex(oshp):
        env = dict(zip(o, oi))
        acc = None
        for si in np.ndindex(*[size[x] for x in sumi]):
            env.update(zip(sumi, si))
            t = None
            for a, l in zip(arrs, exp):
                e = a.raw[tuple(env[x] if n > 1 else 0 for x, n in zip(l, a.shape))]
                e = as_S(e)
                t = e if t is None else t * e
            acc = t if acc is None else acc + t
        res[oi] = acc if acc is not None else as_S(0)
    if not oshp:
        return scal(res[()], dt)
    return wrap(res, dt)


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = as_sym(x)
    if x._dt.kind not in 'fc':
        x = x.astype(F64)
    ax2 = np.conj(x) * x
    if x._dt.kind == 'c':
        ax2 = ax2.real
    if axis is None:
        if ord is None or (ord in ('fro', 'f') and x.ndim == 2) or (ord == 2 and x.ndim == 1):
            r = np.sqrt(f_sum(ax2))
            return as_sym(r).reshape((1,) * x.ndim) if keepdims else r
        if x.ndim == 1:
            axis = 0
        else:
            axis = tuple(range(x.ndim))
    if isinstance(axis, tuple) and len(axis) == 2:
        if ord in (None, 'fro', 'f'):
            return np.sqrt(f_sum(ax2, axis=axis, keepdims=keepdims))
        if ord == 1 or ord == np.inf:
            a0, a1 = norm_axes(axis, x.ndim)
            if ord == np.inf:
                a0, a1 = a1, a0
            s = f_sum(np.abs(x), axis=a0, keepdims=True)
            return as_sym(s).max(axis=axis, keepdims=keepdims)
        raise Unsupported('matrix norm %r' % (ord,))
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise ValueError('Improper number of dimensions to norm.')
    if ord is None or ord == 2:
        return np.sqrt(f_sum(ax2, axis=axis, keepdims=keepdims))
    if ord == 1:
        return f_sum(np.abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return as_sym(np.abs(x)).max(axis=axis, keepdims=keepdims)
    if ord == -np.inf:
        return as_sym(np.abs(x)).min(axis=axis, keepdims=keepdims)
    if ord == 0:
        return f_sum(x != 0, axis=axis, keepdims=keepdims)
    raise Unsupported('norm ord %r' % (ord,))


def det_adj(M):
    """Determinant and adjugate (lists of S) of small square matrix."""
    n = len(M)

    def det(rows, cols):
        if not rows:
            return as_S(1)
        if len(rows) == 1:
            return M[rows[0]][cols[0]]
        acc = None
        r = rows[0]
        for j, c in enumerate(cols):
            if M[r][c].isconst and M[r][c].re.const == 0 and M[r][c].im.const == 0:
                continue
            t = M[r][c] * det(rows[1:], cols[:j] + cols[j + 1:])
            if j % 2:
                t = -t
            acc = t if acc is None else acc + t
        return acc if acc is not None else as_S(0)
    idx = list(range(n))
    d = det(idx, idx)
    adj = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = det(idx[:i] + idx[i + 1:], idx[:j] + idx[j + 1:])
            adj[j][i] = -m if (i + j) % 2 else m
    return d, adj


def gauss_solve(M, b):
    """Exact solve with constant rational complex matrix M (list of lists)."""
    n = len(M)
    A = [[M[i][j] for j in range(n)] + list(b[i]) for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if not (
            A[r][c].re.const == 0 and A[r][c].im.const == 0)), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        A[c], A[p] = A[p], A[c]
        inv = as_S(1) / A[c][c]
        A[c] = [x * inv for x in A[c]]
        for r in range(n):
            if r != c:
                f = A[r][c]
                if f.re.const == 0 and f.im.const == 0:
                    continue
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [row[n:] for row in A]


def solve_exact(A, b):
    """x with A x = b, exact (A square SymArray, b 1-d or 2-d)."""
    A, b = as_sym(A), as_sym(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = A.shape[0]
    if b.shape[0] != n:
        raise ValueError('incompatible dimensions in linear solve')
    dt = np.result_type(A._dt, b._dt, np.float32)
    vec = b.ndim == 1
    b2 = b.reshape((n, -1))
    M = [[as_S(A.raw[i, j]) for j in range(n)] for i in range(n)]
    Bm = [[as_S(x) for x in b2.raw[i]] for i in range(n)]
    if all(M[i][j].isconst for i in range(n) for j in range(n)):
        X = gauss_solve(M, Bm)
    else:
        if n > 4:
            raise Unsupported('symbolic linear solve of size %d' % n)
        d, adj = det_adj(M)
        m = b2.shape[1]
        X = []
        for i in range(n):
            row = []
            for j in range(m):
                acc = as_S(0)
                for k in range(n):
                    acc = acc + adj[i][k] * Bm[k][j]
                row.append(acc / d)
            X.append(row)
    out = np.empty(b2.shape, dtype=object)
    for i in range(n):
        for j in range(b2.shape[1]):
            out[i, j] = X[i][j]
    return wrap(out.reshape(b.shape), dt)


def f_inv(A):
    A = as_sym(A)
    n = A.shape[-1]
    if A.ndim > 2:
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape[:-2]):
            out[i] = f_inv(A[i]).raw
        return wrap(out, A._dt)
    return solve_exact(A, as_sym(np.eye(n)))


def f_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """Contract stub: fresh orthonormal factors with a = U diag(s) Vh."""
    from . import stubs
    return stubs.svd(a, full_matrices, compute_uv)


# ---------------------------------------------------------- other functions

def where3(c, a, b):
    c = as_sym(c)
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        raise Unsupported('masked selection in where')
    dt = where_claim(a, b)
    a, b = as_sym(a), as_sym(b)
    c = boolify(c)
    cr, ar, br = np.broadcast_arrays(c.raw, a.raw, b.raw)
    out = np.empty(cr.shape, dtype=object)
    for i in np.ndindex(cr.shape):
        out[i] = s_where(asB(cr[i]), ar[i], br[i])
    return wrap(out, dt)


def where_claim(a, b):
    ca, cb = claim_of(a), claim_of(b)
    if isinstance(ca, type) and isinstance(cb, type):
        return np.result_type(np.dtype(ca), np.dtype(cb))
    return np.result_type(ca if not isinstance(ca, type) else ca(0),
                          cb if not isinstance(cb, type) else cb(0))


def f_where(c, a=None, b=None):
    if a is None and b is None:
        return np.nonzero(concretize_mask(as_sym(c) if not isinstance(c, np.ndarray) else c))
    return collapse_bool(where3(c, a, b))


def f_concatenate(arrs, axis=0, out=None, dtype=None, **k):
    arrs = [as_sym(x) for x in arrs]
    dt = np.result_type(*[a._dt for a in arrs])
    r = wrap(np.concatenate([cast_raw(a, dt) for a in arrs], axis=axis), dt)
    if out is not None:
        return store_out(out, r)
    return r


def _stacker(fn):
    def f(arrs, *a, **k):
        arrs = [as_sym(x) for x in arrs]
        dt = np.result_type(*[x._dt for x in arrs])
        return wrap(fn([cast_raw(x, dt) for x in arrs], *a, **k), dt)
    return f


def f_pad(x, pw, mode='constant', constant_values=0, **k):
    x = as_sym(x)
    if not isinstance(pw, (int, np.integer)):
        pw = np.asarray(pw, dtype=int) if not isinstance(pw, SymArray) else int_array(pw)
    idx = np.arange(x.size).reshape(x.shape)
    if callable(mode):
        raise Unsupported('pad with callable')
    if mode == 'constant':
        ids = np.pad(idx, pw, 'constant', constant_values=-1)
    else:
        if mode not in ('wrap', 'reflect', 'symmetric', 'edge'):
            raise Unsupported('pad mode %s' % mode)
        ids = np.pad(idx, pw, mode, **k)
    flat = x.raw.ravel()
    out = np.empty(ids.shape, dtype=object)
    cv = as_S(constant_values) if not isinstance(constant_values, (tuple, list)) else None
    for i in np.ndindex(ids.shape):
        out[i] = flat[ids[i]] if ids[i] >= 0 else elem(cv, x._dt.kind)
    return wrap(out, x._dt)


def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = as_sym(a)
    ax = norm_axes(axis, a.ndim)[0]
    parts = []
    if prepend is not np._NoValue:
        p = as_sym(prepend)
        if p.ndim == 0:
            shp = list(a.shape)
            shp[ax] = 1
            p = wrap(np.broadcast_to(p.raw, shp), p._dt)
        parts.append(p)
    parts.append(a)
    if append is not np._NoValue:
        p = as_sym(append)
        if p.ndim == 0:
            shp = list(a.shape)
            shp[ax] = 1
            p = wrap(np.broadcast_to(p.raw, shp), p._dt)
        parts.append(p)
    if len(parts) > 1:
        a = f_concatenate(parts, axis=ax)
    for _ in range(n):
        s1 = (slice(None),) * ax + (slice(1, None),)
        s0 = (slice(None),) * ax + (slice(None, -1),)
        a = a[s1] - a[s0]
    return a


def f_median(a, axis=None, **k):
    a = as_sym(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    s = f_sort(a, axis)
    n = s.shape[axis]
    h = n // 2
    sl = lambda j: s[(slice(None),) * axis + (j,)]
    if n % 2:
        return sl(h)
    return (sl(h - 1) + sl(h)) / 2


def f_take_along_axis(a, idx, axis):
    a = as_sym(a)
    if isinstance(idx, SymArray):
        idx = int_array(idx)
    return wrap(np.take_along_axis(a.raw, idx, axis), a._dt)


def f_put_along_axis(a, idx, v, axis):
    if isinstance(idx, SymArray):
        idx = int_array(idx)
    np.put_along_axis(a.raw, idx, cast_raw(as_sym(v), a._dt), axis)


def f_like(fillv):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        if isinstance(a, SymArray):
            dt = a._dt if dtype is None else DT.unwrap(dtype)
        else:
            dt = np.asarray(as_raw_claim(a)).dtype if dtype is None else DT.unwrap(dtype)
        shp = np.shape(a) if shape is None else shape
        return make(shp, fillv, dt)
    return f


def as_raw_claim(a):
    if isinstance(a, S):
        return np.zeros((), a.dt)
    return a


def make(shape, v, dt):
    """New array filled with v claiming dt; plain numpy for non-float kinds."""
    if isinstance(shape, S):
        shape = int(shape)
    if isinstance(shape, SymArray):
        shape = tuple(int_array(shape))
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(s) for s in shape)
    if dt.kind not in 'fc':
        if isinstance(v, (S, B)):
            return wrap(filled(shape, v), dt)
        if dt.kind in 'iu' and dt.itemsize <= 2:    # image data, not indices
            return wrap(filled(shape, elem(v, dt.kind)), dt)
        return np.full(shape, v, dtype=dt)
    return wrap(filled(shape, elem(v, dt.kind)), dt)


def f_full_like(a, fill_value, dtype=None, **k):
    dt = a._dt if isinstance(a, SymArray) else np.asarray(as_raw_claim(a)).dtype
    if dtype is not None:
        dt = DT.unwrap(dtype)
    return make(np.shape(a), fill_value, dt)


def f_iscomplexobj(x):
    if isinstance(x, SymArray):
        return x._dt.kind == 'c'
    if isinstance(x, S):
        return x.dt.kind == 'c'
    return np.iscomplexobj(x)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = np.abs(as_sym(a) - as_sym(b))
    t = np.abs(as_sym(b)) * rtol + atol
    return f_all(d <= t)


def f_array_equal(a, b, **k):
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b)


def f_array_split_generic(func):
    def f(a, *args, **k):
        rs = func(a.raw, *args, **k)
        return [wrap(r, a._dt) for r in rs]
    return f


def f_trace(a, *args, **k):
    d = as_sym(a).diagonal()
    return f_sum(d)


def f_diag(v, k=0):
    v = as_sym(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        out = filled((n, n), S(ZERO, ZERO, v._dt))
        for i in range(v.shape[0]):
            out[(i, i + k) if k >= 0 else (i - k, i)] = v.raw[i]
        return wrap(out, v._dt)
    return wrap(np.diag(v.raw, k).copy(), v._dt)


def f_linalg_solve(A, b):
    A = as_sym(A)
    if A.ndim > 2:
        b = as_sym(b)
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(A.shape[:-2]):
            out[i] = solve_exact(A[i], b[i]).raw
        return wrap(out, np.result_type(A._dt, b._dt))
    return solve_exact(A, b)


def f_count_nonzero(a, axis=None, keepdims=False):
    return f_sum(as_sym(a) != 0, axis=axis, keepdims=keepdims)


def f_real(x):
    return as_arr(x).real


def f_imag(x):
    return as_arr(x).imag


def as_arr(x):
    return x if isinstance(x, (S, SymArray)) else as_sym(x)


def f_broadcast_arrays(*arrs, **k):
    arrs = [as_sym(a) for a in arrs]
    rs = np.broadcast_arrays(*[a.raw for a in arrs])
    return tuple(wrap(r, a._dt) for r, a in zip(rs, arrs))


def f_nanarg(mx):
    def f(a, axis=None, **k):
        return f_argmax(a if mx else -as_sym(a), axis=axis, skip=True)
    return f


def f_nan(fn, fill):
    """Reduction that ignores undefined values."""
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = as_sym(a)
        bad = [asB(s_isnan(x)) for x in a.raw.ravel()]
        if all(x is False for x in bad):
            return fn(a, axis=axis, keepdims=keepdims)
        if fill is None:
            raise Unsupported('reduction with undefined values')
        return fn(np.nan_to_num(a, nan=fill), axis=axis, keepdims=keepdims)
    return f


def f_select(condlist, choicelist, default=0):
    r = as_arr(default)
    for c, x in zip(list(condlist)[::-1], list(choicelist)[::-1]):
        r = f_where(c, x, r)
    return r


def f_choose(a, choices, out=None, mode='raise'):
    a = as_sym(a)
    r = as_arr(choices[-1])
    for k in range(len(choices) - 2, -1, -1):
        r = f_where(a == k, choices[k], r)
    return r


def f_bincount(x, weights=None, minlength=0):
    x, w = int_array(as_sym(x)), as_sym(weights)
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    out = filled((n,), ZERO_S)
    for i, k in enumerate(x):
        out[k] = out[k] + as_S(w.raw[i])
    return wrap(out, F64)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = np.abs(as_sym(a) - as_sym(b))
    return d <= np.abs(as_sym(b)) * rtol + atol


def f_apply_along_axis(func, axis, a, *args, **kw):
    a = as_sym(a)
    ax = norm_axes(axis, a.ndim)[0]
    r = np.moveaxis(a.raw, ax, -1)
    first = None
    res = {}
    for i in np.ndindex(r.shape[:-1]):
        v = func(wrap(r[i].copy(), a._dt), *args, **kw)
        res[i] = v
        first = v
    f0 = as_sym(first)
    out = np.empty(r.shape[:-1] + f0.shape, dtype=object)
    for i, v in res.items():
        out[i] = as_sym(v).raw if f0.ndim else v
    w = wrap(out, f0._dt)
    if f0.ndim:
        w = wrap(np.moveaxis(w.raw, -1, ax), f0._dt)
    return w


def f_tensordot(a, b, axes=2):
    a, b = as_sym(a), as_sym(b)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    la = list(range(a.ndim))
    lb = list(range(100, 100 + b.ndim))
    for x, y in zip(aa, bb):
        lb[y % b.ndim] = la[x % a.ndim]
    o = [x for k_, x in enumerate(la) if k_ not in [q % a.ndim for q in aa]] + \
        [x for k_, x in enumerate(lb) if k_ not in [q % b.ndim for q in bb]]
    return f_einsum(a, la, b, lb, o)


def f_eigh(A, *a, **k):
    from . import stubs
    return stubs.eigh(A)


FN = {
    np.sum: f_sum, np.mean: f_mean, np.average: f_average, np.var: f_var, np.std: f_std,
    np.any: f_any, np.all: f_all, np.cumsum: f_cumsum,
    np.max: lambda a, axis=None, out=None, keepdims=False, **k: as_sym(a).max(axis=axis, keepdims=keepdims, **k),
    np.min: lambda a, axis=None, out=None, keepdims=False, **k: as_sym(a).min(axis=axis, keepdims=keepdims, **k),
    np.amax: lambda a, axis=None, out=None, keepdims=False, **k: as_sym(a).max(axis=axis, keepdims=keepdims, **k),
    np.amin: lambda a, axis=None, out=None, keepdims=False, **k: as_sym(a).min(axis=axis, keepdims=keepdims, **k),
    np.prod: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: as_sym(a).prod(axis=axis, keepdims=keepdims),
    np.argmax: f_argmax, np.argmin: f_argmin, np.sort: f_sort,
    np.argsort: f_argsort, np.clip: f_clip,
    np.nansum: f_nan(f_sum, 0.0), np.nanmean: f_nan(f_mean, None),
    np.nanmax: f_nan(lambda a, **k: a.max(**k), None), np.nanmin: f_nan(lambda a, **k: a.min(**k), None),
    np.nanstd: f_nan(f_std, None), np.nanvar: f_nan(f_var, None),
    np.select: f_select, np.choose: f_choose, np.bincount: f_bincount,
    np.nanargmin: f_nanarg(False), np.nanargmax: f_nanarg(True),
    np.dot: f_dot, np.vdot: f_vdot, np.inner: lambda a, b: f_dot(a, as_sym(b).T),
    np.einsum: f_einsum, np.tensordot: f_tensordot,
    np.linalg.norm: f_norm, np.linalg.solve: f_linalg_solve,
    np.linalg.inv: f_inv, np.linalg.svd: f_svd, np.linalg.eigh: f_eigh,
    np.where: f_where, np.concatenate: f_concatenate,
    np.stack: _stacker(np.stack), np.hstack: _stacker(np.hstack),
    np.vstack: _stacker(np.vstack), np.dstack: _stacker(np.dstack),
    np.column_stack: _stacker(np.column_stack),
    np.pad: f_pad, np.diff: f_diff, np.median: f_median,
    np.take_along_axis: f_take_along_axis, np.put_along_axis: f_put_along_axis,
    np.zeros_like: f_like(0), np.ones_like: f_like(1), np.empty_like: f_like(0),
    np.full_like: f_full_like,
    np.iscomplexobj: f_iscomplexobj, np.isrealobj: lambda x: not f_iscomplexobj(x),
    np.allclose: f_allclose, np.isclose: f_isclose,
    np.array_equal: f_array_equal,
    np.trace: f_trace, np.diag: f_diag, np.count_nonzero: f_count_nonzero,
    np.real: f_real, np.imag: f_imag, np.broadcast_arrays: f_broadcast_arrays,
    np.split: f_array_split_generic(np.split),
    np.array_split: f_array_split_generic(np.array_split),
    np.apply_along_axis: f_apply_along_axis,
    np.ndim: lambda a: as_arr(a).ndim,
    np.shape: lambda a: as_arr(a).shape,
    np.size: lambda a, axis=None: as_arr(a).size if axis is None else as_arr(a).shape[axis],
    np.real_if_close: lambda a, tol=100: a,
    np.iscomplex: lambda a: as_sym(a).imag != 0,
    np.isreal: lambda a: as_sym(a).imag == 0,
    np.copyto: lambda dst, src, casting='same_kind', where=True: dst.__setitem__(Ellipsis, where3(where, src, dst) if where is not True else src),
    np.nan_to_num: lambda x, copy=True, nan=0.0, posinf=None, neginf=None: mapel(lambda e: s_where(asB(s_isnan(e)), as_S(nan), S(as_S(e).re, as_S(e).im, as_S(e).dt)), as_sym(x), as_sym(x)._dt),
    np.linalg.det: lambda A: det_adj([[as_S(x) for x in row] for row in as_sym(A).raw])[0],
    np.outer: lambda a, b, out=None: as_sym(a).reshape(-1, 1) * as_sym(b).reshape(1, -1),
    np.common_type: lambda *a: np.result_type(*[claim_of(x) for x in a]).type,
    np.copy: lambda a, order='K', subok=False: as_sym(a).copy(),
}
try:
    from numpy.lib.stride_tricks import as_strided as _as_strided
    FN[_as_strided] = None
except Exception:
    pass

# functions that merely rearrange elements: run on raw object array
REARR = {np.moveaxis, np.swapaxes, np.transpose, np.reshape, np.ravel,
         np.squeeze, np.expand_dims, np.roll, np.rollaxis, np.tile, np.repeat,
         np.flip, np.fliplr, np.flipud, np.rot90, np.take, np.broadcast_to,
         np.atleast_1d, np.atleast_2d, np.atleast_3d, np.triu, np.tril,
         np.delete, np.diagonal, np.resize, np.compress, np.fft.fftshift,
         np.fft.ifftshift}


def deraw(x):
    if isinstance(x, SymArray):
        if x._dt.kind in 'iu':
            try:
                return int_array(x)
            except Exception:
                pass
        return x.raw
    return x


def function_dispatch(func, args, kwargs):
    f = FN.get(func)
    if kwargs.get('out') is not None and (f is not None or func in REARR):
        out = _single(kwargs['out'])
        r = function_dispatch(func, args, {k: v for k, v in kwargs.items() if k != 'out'})
        return store_out(out, as_sym(r))
    if f is not None:
        return f(*args, **kwargs)
    if func in REARR:
        a = args[0] if args else kwargs.get('a')
        a = as_arr(a)
        if isinstance(a, S):
            a = wrap0(a)
        r = func(a.raw, *[deraw(x) for x in args[1:]],
                 **{k: deraw(v) for k, v in kwargs.items() if k != 'a'})
        if isinstance(r, np.ndarray):
            if r.dtype != OBJ:
                raise Unsupported('rearrange %s' % func.__name__)
            return wrap(r, a._dt)
        return scal(r, a._dt)
    name = getattr(func, '__name__', str(func))
    if name == 'as_strided':
        return f_as_strided(*args, **kwargs)
    if name == 'sliding_window_view':
        a = args[0]
        return wrap(np.lib.stride_tricks.sliding_window_view(a.raw, *args[1:], **kwargs), a._dt)
    if name in ('fftn', 'ifftn', 'rfftn', 'irfftn', 'fft', 'ifft', 'rfft',
                'irfft', 'fft2', 'ifft2', 'rfft2', 'irfft2'):
        from . import stubs
        return getattr(stubs, name)(*args, **kwargs)
    if name == 'result_type':
        return np.result_type(*[DT.unwrap(x.dtype) if hasattr(x, 'dtype') else x for x in args])
    if name == 'can_cast':
        return True
    if name == 'shares_memory' or name == 'may_share_memory':
        return func(*[deraw(x) for x in args])
    # generic fallback: numpy's own python implementation
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported('numpy function %s' % name)
    return impl(*args, **kwargs)


class MemError(Exception):
    """Out-of-bounds strided view detected."""


def f_as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    """Bounds-checked as_strided on the object buffer."""
    shape = tuple(int(s) for s in (x.shape if shape is None else shape))
    strides = tuple(int(s) for s in (x.strides if strides is None else strides))
    # address range check against the allocation
    lo = hi = 0
    for n, s in zip(shape, strides):
        if n == 0:
            break
        if s > 0:
            hi += (n - 1) * s
        else:
            lo += (n - 1) * s
    else:
        base = x.raw
        while isinstance(base.base, np.ndarray):
            base = base.base
        a0 = x.raw.__array_interface__['data'][0]
        b0, b1 = np.lib.array_utils.byte_bounds(base)
        if a0 + lo < b0 or a0 + hi + 8 > b1:
            raise MemError('strided view leaves the array allocation')
        if any(s % 8 for s in strides):
            raise MemError('misaligned strided view')
    r = np.lib.stride_tricks.as_strided(x.raw, shape, strides)
    return wrap(r, x._dt)
