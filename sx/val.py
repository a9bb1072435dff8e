"""Engine state (path condition, forking) and symbolic scalar classes."""
from __future__ import annotations
import math
import time
from fractions import Fraction
import numbers
import numpy as np
import z3
from . import core
from .core import (Poly, ZERO, ONE, pconst, padd, psub, pneg, pmul, pscale,
                   pdiv, ppow, pcmp, ite_poly, abs_poly, sqrt_poly, is_pos,
                   is_nonneg, band, bor, bnot, snap, Unsupported, PathAbort,
                   Budget, to_z3, zvars, pvars, closure_defs)

F64 = np.dtype('float64')
C128 = np.dtype('complex128')
I64 = np.dtype('int64')
BOOL = np.dtype('bool')
DEFDT = {'b': BOOL, 'i': I64, 'u': I64, 'f': F64, 'c': C128}


class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.path = []          # z3 constraints of the current path
        self.prefix = []        # decisions to replay
        self.trace = []         # decisions taken: (value, alternative_open)
        self.forks = 0
        self.queries = 0
        self.qtime = 0.0
        self.deadline = None
        self.maxdepth = 60
        self.feas_cache = {}
        self.active = False
        self.approx = []        # notes on over-approximations used

    def start_path(self, prefix):
        self.path = []
        self.prefix = list(prefix)
        self.trace = []
        self.feas_cache = {}

    def budget(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    # --- solver
    def solve(self, extra, timeout=4000, want_model=False, base=None):
        """Check path /\\ extra (list of z3).  -> 'sat'/'unsat'/'unknown', model"""
        self.budget()
        if self.deadline is not None:
            timeout = int(max(200, min(timeout,
                                       (self.deadline - time.time()) * 1000)))
        cs = list(self.path if base is None else base) + list(extra)
        ids = set()
        for c in cs:
            ids |= zvars(c)
        defs, _ = closure_defs(ids)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*cs)
        if defs:
            s.add(*defs)
        t = time.time()
        r = str(s.check())
        self.queries += 1
        self.qtime += time.time() - t
        return r, (s.model() if r == 'sat' and want_model else None)

    def entails(self, cond, timeout=2000):
        """True when path |= cond (unsat of negation)."""
        if cond is True:
            return True
        if cond is False:
            return False
        k = ('e', cond.get_id(), len(self.path))
        r = self.feas_cache.get(k)
        if r is None:
            st, _ = self.solve([z3.Not(cond)], timeout)
            r = (cond, st == 'unsat')
            self.feas_cache[k] = r
        return r[1]

    def decide(self, cond):
        """Branch on a condition (python bool or z3)."""
        if cond is True or cond is False:
            return cond
        self.budget()
        n = len(self.trace)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.trace.append((v, False))
            self.path.append(cond if v else z3.Not(cond))
            return v
        rt, _ = self.solve([cond])
        if rt == 'unsat':
            self.trace.append((False, False))
            self.path.append(z3.Not(cond))
            return False
        rf, _ = self.solve([z3.Not(cond)])
        if rf == 'unsat':
            self.trace.append((True, False))
            self.path.append(cond)
            return True
        if n >= self.maxdepth:
            raise Unsupported('path depth limit')
        self.forks += 1
        self.trace.append((True, True))
        self.path.append(cond)
        return True

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.path.append(cond)


ENG = Engine()


def zb(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    return c


class B:
    """Symbolic boolean."""
    __slots__ = ('e',)
    __array_priority__ = 2000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __and__(self, o):
        o = asB(o)
        return NotImplemented if o is None else mkB(band(self.e, o))
    __rand__ = __and__

    def __or__(self, o):
        o = asB(o)
        return NotImplemented if o is None else mkB(bor(self.e, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = asB(o)
        return NotImplemented if o is None else mkB(
            bor(band(self.e, bnot(o)), band(bnot(self.e), o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkB(bnot(self.e))
    logical_not = __invert__

    def s(self):
        return S(ite_poly(self.e, ONE, ZERO), ZERO, I64)

    def __add__(self, o): return self.s() + o
    __radd__ = __add__
    def __mul__(self, o):
        if isinstance(o, B):
            return self & o
        return self.s() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.s() - o
    def __rsub__(self, o): return o - self.s()
    def __neg__(self): return -self.s()
    def __truediv__(self, o): return self.s() / o
    def __eq__(self, o):
        ob = asB(o)
        if ob is None:
            return self.s() == o
        return ~(self ^ mkB(ob))
    def __ne__(self, o):
        ob = asB(o)
        if ob is None:
            return self.s() != o
        return self ^ mkB(ob)
    def __lt__(self, o): return self.s() < o
    def __le__(self, o): return self.s() <= o
    def __gt__(self, o): return self.s() > o
    def __ge__(self, o): return self.s() >= o
    __hash__ = None
    dtype = property(lambda self: DT.wrap(BOOL))
    ndim = 0
    shape = ()
    size = 1
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def astype(self, dt, **k):
        k_ = DT.unwrap(dt).kind
        return self if k_ == 'b' else S(self.s().re, ZERO, DT.unwrap(dt))
    def __deepcopy__(self, memo): return self
    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, a, k)
    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, args, kwargs)
    def __repr__(self): return 'B(%s)' % self.e


def mkB(e):
    if e is True or e is False:
        return bool(e)
    return B(e)


def asB(o):
    """python/np bool or B -> raw (bool or z3); None if not boolean."""
    if isinstance(o, B):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    return None


class DT:
    """Wrapper of numpy dtype whose .type constructor accepts symbolic values."""
    _cache = {}

    def __new__(cls, d):
        d = np.dtype(d)
        r = cls._cache.get(d)
        if r is None:
            r = object.__new__(cls)
            r.d = d
            r.dtype = d
            cls._cache[d] = r
        return r

    @staticmethod
    def wrap(d):
        return DT(d)

    @staticmethod
    def unwrap(d):
        if isinstance(d, DT):
            return d.d
        if isinstance(d, DType):
            return np.dtype(d.t)
        if d is None:
            return F64
        return np.dtype(d)

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__name__',):
            raise AttributeError(n)
        return getattr(self.d, n)

    @property
    def type(self):
        return DType(self.d.type)

    def newbyteorder(self, *a):
        return self

    def __eq__(self, o):
        try:
            return self.d == DT.unwrap(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return repr(self.d)

    def __str__(self):
        return str(self.d)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (DT, (self.d,))


class DType:
    """Callable stand-in for a numpy scalar type."""
    _cache = {}
    __class__ = property(lambda self: type)     # isinstance(x, type)

    def __new__(cls, t):
        r = cls._cache.get(t)
        if r is None:
            r = object.__new__(cls)
            r.t = t
            r.dtype = np.dtype(t)
            r.__name__ = t.__name__
            cls._cache[t] = r
        return r

    def __call__(self, v=0, *a):
        if isinstance(v, (S, B)):
            return as_S(v).astype(np.dtype(self.t))
        from .arr import SymArray
        if isinstance(v, SymArray):
            return v.astype(np.dtype(self.t))
        if isinstance(v, (int, float, complex, np.number, np.bool_)) and \
                np.dtype(self.t).kind in 'fc':
            return as_S(v).astype(np.dtype(self.t))
        return self.t(v, *a)

    def __eq__(self, o):
        return (o.t if isinstance(o, DType) else o) is self.t

    def __hash__(self):
        return hash(self.t)


def num_to_polys(v):
    """Concrete number -> (re, im, special)"""
    if isinstance(v, (bool, np.bool_)):
        return pconst(int(v)), ZERO, None
    if isinstance(v, (int, np.integer)):
        return pconst(int(v)), ZERO, None
    if isinstance(v, Fraction):
        return pconst(v), ZERO, None
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if math.isnan(f):
            return ZERO, ZERO, (True, False, False)
        if math.isinf(f):
            return ZERO, ZERO, (False, f > 0, f < 0)
        return pconst(snap(f, isinstance(v, (np.float32, np.float16)))), ZERO, None
    if isinstance(v, (complex, np.complexfloating)):
        sg = isinstance(v, np.complex64)
        c = complex(v)
        if not (math.isfinite(c.real) and math.isfinite(c.imag)):
            return ZERO, ZERO, (True, False, False)
        return pconst(snap(c.real, sg)), pconst(snap(c.imag, sg)), None
    raise Unsupported('cannot convert %r to symbolic' % (type(v),))


def num_dtype(v):
    if isinstance(v, np.generic):
        return v.dtype
    if isinstance(v, (bool,)):
        return BOOL
    if isinstance(v, int):
        return I64
    if isinstance(v, complex):
        return C128
    return F64


def as_S(v):
    if isinstance(v, S):
        return v
    if isinstance(v, B):
        return v.s()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return as_S(v[()])
    re, im, sp = num_to_polys(v)
    return S(re, im, num_dtype(v), sp)


def _sp3(s):
    return s if s is not None else (False, False, False)


def _mksp(n, p, m):
    if n is False and p is False and m is False:
        return None
    return (n, p, m)


def anybad(s):
    if s is None:
        return False
    return bor(s[0], bor(s[1], s[2]))


class S(numbers.Number):
    """Symbolic numeric scalar (exact real/complex abstraction)."""
    __slots__ = ('re', 'im', 'dt', 'sp')
    __array_priority__ = 2000

    def __init__(self, re, im=ZERO, dt=None, sp=None):
        self.re = re
        self.im = im
        if dt is None:
            dt = C128 if im.t else F64
        self.dt = dt
        self.sp = sp

    # -- attributes mimicking numpy scalars
    @property
    def dtype(self): return DT.wrap(self.dt)
    ndim = 0
    shape = ()
    size = 1
    strides = ()
    nbytes = 8
    itemsize = 8
    @property
    def real(self):
        return S(self.re, ZERO, real_dt(self.dt), self.sp)
    @property
    def imag(self):
        return S(self.im, ZERO, real_dt(self.dt), self.sp)
    @property
    def T(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def item(self, *a): return self
    def ravel(self, *a):
        from . import arr
        return arr.wrap0(self).reshape(1)
    flatten = ravel
    def reshape(self, *a):
        from . import arr
        return arr.wrap0(self).reshape(*a)
    def squeeze(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self / 1
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def conj(self): return self.conjugate()
    def tolist(self): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def astype(self, dt, *a, **k):
        d = DT.unwrap(dt)
        if d == object:
            return self
        if d.kind == 'b':
            return self != 0
        im = self.im
        re = self.re
        if d.kind != 'c':
            im = ZERO
        if d.kind in 'iu' and self.dt.kind not in 'iub':
            c = re.const
            if c is None or Fraction(c).denominator != 1:
                if c is not None:
                    re = pconst(int(c))
                else:
                    # truncation towards zero (values outside the range of
                    # the type are undefined behaviour of the conversion)
                    x = S(re, ZERO, self.dt)
                    t = s_where(asB(x >= 0), s_floor(x), -s_floor(-x))
                    return S(t.re, ZERO, d, self.sp)
        return S(re, im, d, self.sp)
    def __getitem__(self, idx):
        from . import arr
        return arr.wrap0(self)[idx]
    def __len__(self):
        raise TypeError('len() of unsized object')

    @property
    def isconst(self):
        return self.sp is None and self.re.const is not None and \
            self.im.const is not None

    # -- conversion
    def concrete(self):
        if not self.isconst:
            raise Unsupported('symbolic value used as concrete number')
        r, i = self.re.const, self.im.const
        if i:
            return complex(float(r), float(i))
        return float(r)

    def __float__(self):
        return float(self.concrete())

    def __int__(self):
        c = self.concrete()
        return int(c)

    def __index__(self):
        if self.dt.kind in 'iu' and self.isconst:
            return int(self.re.const)
        raise TypeError('symbolic value cannot be an index')

    def __complex__(self):
        return complex(self.concrete())

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __hash__(self):
        return hash((self.re, self.im))

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, args, kwargs)

    # -- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_add(self, o)

    def __radd__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_add(o, self)

    def __sub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_add(self, s_neg(o))

    def __rsub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_add(o, s_neg(self))

    def __mul__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_mul(self, o)

    def __rmul__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_mul(o, self)

    def __truediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_div(self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_div(o, self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if self.isconst and o.isconst:
            return S(pconst(Fraction(self.re.const) // Fraction(o.re.const)), ZERO,
                     res_dt(self.dt, o.dt))
        if o.isconst and o.re.const != 0:
            return S(s_floor(S(self.re, self.im) / S(o.re, o.im)).re, ZERO, res_dt(self.dt, o.dt))
        raise Unsupported('symbolic floor division')

    def __mod__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if self.isconst and o.isconst:
            return S(pconst(Fraction(self.re.const) % Fraction(o.re.const)), ZERO,
                     res_dt(self.dt, o.dt))
        if o.isconst and o.re.const != 0:
            return S((self - o * (self // o)).re, ZERO, res_dt(self.dt, o.dt))
        raise Unsupported('symbolic modulo')

    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(as_S(o), self)

    # -- numpy object-loop methods
    def conjugate(self):
        return S(self.re, pneg(self.im), self.dt, self.sp)
    def sqrt(self): return s_sqrt(self)
    def exp(self): return s_fn('exp', math.exp, self)
    def log(self): return s_fn('log', _safe(math.log), self)
    def log10(self): return s_fn('log10', _safe(math.log10), self)
    def floor(self): return s_floor(self)
    def ceil(self): return s_neg(s_floor(s_neg(self)))
    def square(self): return s_mul(self, self)

    # -- comparisons
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return s_cmp(self, o, op)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, '!=')
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __repr__(self):
        s = core.show(self.re, 4)
        if self.im.t:
            s += ' + i(%s)' % core.show(self.im, 4)
        return 'S<%s>' % s

    def __format__(self, spec):
        return repr(self)


def _safe(f):
    def g(x):
        return f(x) if x > 0 else 0.0
    return g


def real_dt(d):
    if d.kind == 'c':
        return np.dtype('float32') if d.itemsize == 8 else F64
    return d


def res_dt(a, b):
    if a == b:
        return a
    return np.result_type(a, b)


def _coerce(o):
    if isinstance(o, S):
        return o
    if isinstance(o, B):
        return o.s()
    if isinstance(o, (int, float, complex, np.number, np.bool_, Fraction)):
        return as_S(o)
    return None


def _dt2(a, b):
    # python-scalar promotion subtleties are handled at array level
    return a.dt if a.dt == b.dt else np.result_type(a.dt, b.dt)


def s_neg(a):
    sp = a.sp
    if sp is not None:
        sp = (sp[0], sp[2], sp[1])
    return S(pneg(a.re), pneg(a.im) if a.im.t else ZERO, a.dt, sp)


def s_add(a, b):
    sp = None
    if a.sp is not None or b.sp is not None:
        n1, p1, m1 = _sp3(a.sp)
        n2, p2, m2 = _sp3(b.sp)
        nan = bor(bor(n1, n2), bor(band(p1, m2), band(m1, p2)))
        sp = _mksp(nan, bor(p1, p2), bor(m1, m2))
    return S(padd(a.re, b.re), padd(a.im, b.im) if (a.im.t or b.im.t) else ZERO,
             _dt2(a, b), sp)


def s_mul(a, b):
    sp = None
    if a.sp is not None or b.sp is not None:
        n1, p1, m1 = _sp3(a.sp)
        n2, p2, m2 = _sp3(b.sp)
        i1, i2 = bor(p1, m1), bor(p2, m2)
        if a.im.t or b.im.t:
            sp = _mksp(bor(bor(n1, n2), bor(i1, i2)), False, False)
        else:
            z1 = band(pcmp(a.re, '=='), bnot(anybad(a.sp)))
            z2 = band(pcmp(b.re, '=='), bnot(anybad(b.sp)))
            pos1 = bor(p1, band(bnot(anybad(a.sp)), pcmp(a.re, '>')))
            pos2 = bor(p2, band(bnot(anybad(b.sp)), pcmp(b.re, '>')))
            neg1 = bor(m1, band(bnot(anybad(a.sp)), pcmp(a.re, '<')))
            neg2 = bor(m2, band(bnot(anybad(b.sp)), pcmp(b.re, '<')))
            nan = bor(bor(n1, n2), bor(band(i1, z2), band(i2, z1)))
            inf = bor(i1, i2)
            sp = _mksp(nan, band(inf, bor(band(pos1, pos2), band(neg1, neg2))),
                       band(inf, bor(band(pos1, neg2), band(neg1, pos2))))
    if not a.im.t and not b.im.t:
        return S(pmul(a.re, b.re), ZERO, _dt2(a, b), sp)
    if sp is None and a.im.t and b.im.t:
        k = core.conj_ratio(a, b)
        if k is not None:       # k conj(b) b
            m = core.padd(pmul(b.re, b.re), pmul(b.im, b.im))
            return S(core.pscale(m, k), ZERO, _dt2(a, b), sp)
    if not a.im.t:
        return S(pmul(a.re, b.re), pmul(a.re, b.im), _dt2(a, b), sp)
    if not b.im.t:
        return S(pmul(a.re, b.re), pmul(a.im, b.re), _dt2(a, b), sp)
    return S(psub(pmul(a.re, b.re), pmul(a.im, b.im)),
             padd(pmul(a.re, b.im), pmul(a.im, b.re)), _dt2(a, b), sp)


def nonzero(p):
    """(raw bool) condition under which p == 0 is possible: False if never."""
    c = p.const
    if c is not None:
        return c == 0
    if is_pos(p) or is_pos(pneg(p)):
        return False
    cond = pcmp(p, '==')
    if cond is False:
        return False
    if ENG.entails(z3.Not(cond)):
        return False
    return cond


def s_div(a, b):
    dt = _dt2(a, b)
    if dt.kind in 'iub':
        dt = F64
    if b.im.t and len(b.im.t) <= 400 and any(
            core.ST.atoms[x].recip is not None for x in pvars(b.im)):
        q = core.clear_recip(b.im, 4000)
        if q is not None and not q.t:
            b = S(b.re, ZERO, b.dt, b.sp)
    if b.im.t:
        # complex division: multiply by conjugate
        den = padd(pmul(b.re, b.re), pmul(b.im, b.im))
        num = s_mul(a, b.conjugate())
        return s_div(S(num.re, num.im, dt, num.sp), S(den, ZERO, dt, b.sp))
    sp = None
    zc = nonzero(b.re)
    if b.sp is not None or a.sp is not None or zc is not False:
        n1, p1, m1 = _sp3(a.sp)
        n2, p2, m2 = _sp3(b.sp)
        i1, i2 = bor(p1, m1), bor(p2, m2)
        b0 = band(zc, bnot(anybad(b.sp)))
        fin1 = bnot(anybad(a.sp))
        a0 = band(fin1, band(pcmp(a.re, '=='), pcmp(a.im, '==')))
        nan = bor(bor(n1, n2), bor(band(i1, i2), band(a0, b0)))
        if a.im.t:
            nan = bor(nan, bor(b0, i1))
            sp = _mksp(nan, False, False)
        else:
            apos = bor(p1, band(fin1, pcmp(a.re, '>')))
            aneg = bor(m1, band(fin1, pcmp(a.re, '<')))
            bneg = band(bnot(anybad(b.sp)), pcmp(b.re, '<'))
            # division by zero: sign of zero taken as +
            inf = bor(band(b0, bnot(a0)), band(i1, bnot(i2)))
            pin = band(inf, bor(band(apos, bnot(bneg)), band(aneg, bneg)))
            min_ = band(inf, bor(band(aneg, bnot(bneg)), band(apos, bneg)))
            sp = _mksp(nan, pin, min_)
        if b.sp is not None and (i2 is not False):
            # finite / inf = 0
            re = ite_poly(i2, ZERO, pdiv_safe(a.re, b.re))
            im = ite_poly(i2, ZERO, pdiv_safe(a.im, b.re))
            return S(re, im, dt, sp)
    if zc is True:
        return S(ZERO, ZERO, dt, sp)
    return S(pdiv_safe(a.re, b.re), pdiv_safe(a.im, b.re) if a.im.t else ZERO,
             dt, sp)


def pdiv_safe(a, b):
    if b.const == 0:
        return ZERO
    return pdiv(a, b)


def s_abs(a):
    if a.sp is not None:
        n, p, m = a.sp
        sp = _mksp(n, bor(p, m), False)
    else:
        sp = None
    if not a.im.t:
        return S(abs_poly(a.re), ZERO, real_dt(a.dt), sp)
    if not a.re.t:
        return S(abs_poly(a.im), ZERO, real_dt(a.dt), sp)
    return S(sqrt_poly(padd(pmul(a.re, a.re), pmul(a.im, a.im))), ZERO,
             real_dt(a.dt), sp)


def s_sqrt(a):
    dt = a.dt if a.dt.kind in 'fc' else F64
    if a.im.t:
        return c_sqrt(a, dt)
    sp = a.sp
    if a.dt.kind == 'c' and not is_nonneg(a.re):
        neg = pcmp(a.re, '<')
        if neg is False or neg is not True and ENG.entails(bnot(neg)):
            return S(sqrt_poly(a.re), ZERO, dt, sp)
        return c_sqrt(a, dt)
    if not is_nonneg(a.re):
        neg = pcmp(a.re, '<')
        if neg is not False and not ENG.entails(bnot(neg)):
            n, p, m = _sp3(sp)
            sp = _mksp(bor(n, bor(neg, m)), p, False)
        if neg is True:
            return S(ZERO, ZERO, dt, sp)
    return S(sqrt_poly(a.re), ZERO, dt, sp)


def c_sqrt(a, dt):
    """principal square root of a complex value"""
    r = sqrt_poly(padd(pmul(a.re, a.re), pmul(a.im, a.im)))
    # |z| >= |re z|: the arguments of the roots are not negative
    u = sqrt_poly(pscale(padd(r, a.re), Fraction(1, 2)))
    v = sqrt_poly(pscale(psub(r, a.re), Fraction(1, 2)))
    neg = pcmp(a.im, '<')
    if neg is True:
        v = pneg(v)
    elif neg is not False:
        v = ite_poly(neg, pneg(v), v)
    return S(u, v, dt, a.sp)


def s_pow(a, o):
    if isinstance(o, (S,)):
        if not o.isconst:
            return s_fn2('pow', lambda x, y: abs(x) ** y, a, o)
        e = Fraction(o.re.const)
    elif isinstance(o, np.ndarray):
        return NotImplemented
    else:
        e = Fraction(snap(float(o)))
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            return s_div(as_S(1), s_pow(a, -n))
        if a.sp is not None:
            r = as_S(1)
            for _ in range(n):
                r = s_mul(r, a)
            return r
        if not a.im.t:
            return S(ppow(a.re, n), ZERO, a.dt)
        r = S(ONE, ZERO, a.dt)
        for _ in range(n):
            r = s_mul(r, a)
        return r
    if e.denominator == 2:
        n = int(e * 2)
        if n < 0:
            return s_div(as_S(1), s_pow(s_sqrt(a), -n))
        return s_pow(s_sqrt(a), n)
    if a.isconst:
        return as_S(float(a.re.const) ** float(e))
    return s_fn2('pow', lambda x, y: abs(x) ** y, a, as_S(e))


FLOATFN = [False]       # values at constants are the rounded constants


def s_fn(name, f, a):
    """Uninterpreted real function of a real argument."""
    if FLOATFN[0] and a.isconst and not a.im.t:
        try:
            return as_S(f(float(a.re.const)))
        except (ValueError, OverflowError):
            pass
    if a.im.t:
        raise Unsupported('%s of complex' % name)
    if a.isconst:
        v = float(a.re.const)
        if name == 'exp' and v == 0:
            return S(ONE, ZERO, a.dt)
        if name.startswith('log'):
            if v == 1:
                return S(ZERO, ZERO, a.dt)
    zf = z3.Function(name, z3.RealSort(), z3.RealSort())
    key = ('fn', name, a.re)

    def build():
        at = core.ST.new('fn_' + name)
        at.defs = [at.z == zf(to_z3(a.re))]
        at.deps = tuple(pvars(a.re))
        if name == 'exp':
            at.pos = at.nonneg = True
            at.defs.append(at.z > 0)
        at.ev = ('fn', f, (a.re,))
        if a.isconst:
            try:
                r = Fraction(f(float(a.re.const)))
            except (ValueError, OverflowError):
                return at
            # enclosure of the value at a constant
            e = (abs(r) + 1 if name != 'exp' else abs(r)) / 10 ** 9
            at.defs = [at.z >= core.zq(r - e), at.z <= core.zq(r + e)]
            at.deps = ()
            if r - e > 0:
                at.pos = at.nonneg = True
        return at
    p = core.patom(core._keyed(key, build))
    sp = a.sp
    if name.startswith('log'):
        n, pi, mi = _sp3(sp)
        neg = pcmp(a.re, '<')
        zer = pcmp(a.re, '==')
        sp = _mksp(bor(n, neg), pi, zer)
    return S(p, ZERO, a.dt if a.dt.kind == 'f' else F64, sp)


def s_fn2(name, f, a, b):
    if a.im.t or b.im.t:
        raise Unsupported(name)
    zf = z3.Function(name, z3.RealSort(), z3.RealSort(), z3.RealSort())
    key = ('fn', name, a.re, b.re)

    def build():
        at = core.ST.new('fn_' + name)
        at.defs = [at.z == zf(to_z3(a.re), to_z3(b.re))]
        at.deps = tuple(pvars(a.re) | pvars(b.re))
        at.ev = ('fn', f, (a.re, b.re))
        return at
    return S(core.patom(core._keyed(key, build)), ZERO, _dt2(a, b))


def s_floor(a):
    if a.isconst:
        return S(pconst(math.floor(Fraction(a.re.const))), ZERO, a.dt)
    if a.im.t or a.sp is not None:
        raise Unsupported('floor of symbolic value')
    try:        # constant (e.g. the square root of an integer)
        v = core.Env({}).poly(a.re)
    except Unsupported:
        v = None
    if v is not None:
        if abs(v - round(v)) < 1e-9:
            raise Unsupported('floor of an inexact constant')
        return S(pconst(math.floor(v)), ZERO, a.dt)
    key = ('fn', 'floor', a.re)

    def build():
        at = core.ST.new('fn_floor')
        k = z3.Int('k_%s' % at.name)
        e = to_z3(a.re)
        at.defs = [at.z == z3.ToReal(k), at.z <= e, e < at.z + 1]
        at.deps = tuple(pvars(a.re))
        at.ev = ('fn', math.floor, (a.re,))
        return at
    return S(core.patom(core._keyed(key, build)), ZERO, a.dt)


def s_cmp(a, b, op):
    if a.sp is not None or b.sp is not None:
        n1, p1, m1 = _sp3(a.sp)
        n2, p2, m2 = _sp3(b.sp)
        fin = band(bnot(anybad(a.sp)), bnot(anybad(b.sp)))
        base = s_cmp(S(a.re, a.im, a.dt), S(b.re, b.im, b.dt), op)
        base = asB(base)
        nonan = bnot(bor(n1, n2))
        if op in ('<', '<='):
            inf = bor(band(m1, bnot(m2)), band(p2, bnot(p1)))
            if op == '<=':
                inf = bor(inf, bor(band(m1, m2), band(p1, p2)))
            return mkB(band(nonan, bor(band(fin, base), inf)))
        if op in ('>', '>='):
            return s_cmp(b, a, {'>': '<', '>=': '<='}[op])
        eq = bor(band(fin, asB(s_cmp(S(a.re, a.im), S(b.re, b.im), '=='))),
                 bor(band(p1, p2), band(m1, m2)))
        eq = band(nonan, eq)
        return mkB(eq if op == '==' else bnot(eq))
    if op == '==':
        r = pcmp(psub(a.re, b.re), '==')
        if a.im.t or b.im.t:
            r = band(r, pcmp(psub(a.im, b.im), '=='))
        return mkB(r)
    if op == '!=':
        r = pcmp(psub(a.re, b.re), '!=')
        if a.im.t or b.im.t:
            r = bor(r, pcmp(psub(a.im, b.im), '!='))
        return mkB(r)
    if a.im.t or b.im.t:
        raise Unsupported('ordering of complex values')
    return mkB(pcmp(psub(a.re, b.re), op))


def s_where(c, a, b):
    """c raw bool."""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, B) or isinstance(b, B) or (
            isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))):
        ra, rb = asB(a), asB(b)
        if ra is not None and rb is not None:
            return mkB(bor(band(c, ra), band(bnot(c), rb)))
    a, b = as_S(a), as_S(b)
    sp = None
    if a.sp is not None or b.sp is not None:
        n1, n2 = _sp3(a.sp), _sp3(b.sp)
        sp = _mksp(*[bor(band(c, x), band(bnot(c), y)) for x, y in zip(n1, n2)])
    return S(ite_poly(c, a.re, b.re),
             ite_poly(c, a.im, b.im) if (a.im.t or b.im.t) else ZERO,
             _dt2(a, b), sp)


def s_max(a, b):
    a, b = as_S(a), as_S(b)
    if a.im.t or b.im.t:
        raise Unsupported('maximum of complex values')
    c = asB(s_cmp(a, b, '>='))
    r = s_where(c, a, b)
    if a.sp is not None or b.sp is not None:
        nan = bor(_sp3(a.sp)[0], _sp3(b.sp)[0])
        n, p, m = _sp3(r.sp)
        r = S(r.re, r.im, r.dt, _mksp(bor(n, nan), p, m))
    return S(r.re, r.im, _dt2(a, b), r.sp)


def s_min(a, b):
    return s_neg(s_max(s_neg(as_S(a)), s_neg(as_S(b))))


def s_sign(a):
    a = as_S(a)
    if a.im.t or a.dt.kind == 'c':
        m = s_abs(a)
        z = asB(s_cmp(m, as_S(0), '=='))
        if z is True:
            return S(ZERO, ZERO, a.dt)
        if z is not False:
            q = s_div(a, m)
            return s_where(z, S(ZERO, ZERO, a.dt), S(q.re, q.im, a.dt))
        return s_div(a, m)
    g = pcmp(a.re, '>')
    l = pcmp(a.re, '<')
    if a.sp is not None:
        n, p, mm = a.sp
        g = bor(p, band(bnot(anybad(a.sp)), g))
        l = bor(mm, band(bnot(anybad(a.sp)), l))
    one = pconst(1)
    return S(ite_poly(g, one, ite_poly(l, pconst(-1), ZERO)), ZERO, a.dt,
             None if a.sp is None else _mksp(a.sp[0], False, False))


def s_isnan(a):
    a = as_S(a)
    return mkB(_sp3(a.sp)[0])


def s_isinf(a):
    a = as_S(a)
    n, p, m = _sp3(a.sp)
    return mkB(bor(p, m))


def s_isfinite(a):
    a = as_S(a)
    return mkB(bnot(anybad(a.sp)))
