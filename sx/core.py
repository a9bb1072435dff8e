"""Symbolic scalars for the numpy-level symbolic executor.

A value is a complex pair (re, im) of sparse multivariate polynomials with
exact rational coefficients over *atoms*.  Atoms are input variables and
definitional auxiliaries (if-then-else, absolute value, square root,
reciprocal, uninterpreted function).  Every auxiliary carries a definition
which is handed to z3 together with every query that mentions it.
"""
from __future__ import annotations
import math
import time
import random
from fractions import Fraction
import numpy as np
import z3


class Unsupported(Exception):
    """The executor met an operation it cannot encode."""


class PathAbort(BaseException):
    """Current path is infeasible / cut."""


class Budget(Exception):
    """Time budget of the obligation exhausted."""


# ----------------------------------------------------------------- numbers

def norm_frac(f):
    if type(f) is int:
        return f
    if f.denominator == 1:
        return int(f.numerator)
    return f


_snap_cache = {}


def snap(x, single=False):
    """Simplest rational that rounds to the same binary float."""
    key = (x, single)
    r = _snap_cache.get(key)
    if r is not None:
        return r
    if x == int(x) and abs(x) < 2**53:
        r = int(x)
    else:
        fr = Fraction(x)
        r = None
        cast = np.float32 if single else float
        tgt = cast(x)
        for md in (10, 100, 1000, 10**4, 10**5, 10**6, 10**8, 10**10, 10**12):
            c = fr.limit_denominator(md)
            if c != 0 and cast(c.numerator / c.denominator) == tgt:
                r = c
                break
        if r is None:
            # small magnitudes: decimal repr
            c = Fraction(repr(float(tgt)) if not single else str(tgt))
            r = c if cast(float(c)) == tgt else fr
    r = norm_frac(r)
    _snap_cache[key] = r
    return r


# ------------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'kind', 'name', 'z', 'arg', 'nonneg', 'pos', 'sq',
                 'defs', 'deps', 'ev', 'recip', 'cancel')

    def __init__(self, id, kind, name):
        self.id = id
        self.kind = kind
        self.name = name
        self.z = z3.Real(name)
        self.arg = None
        self.nonneg = False
        self.pos = False
        self.sq = None      # polynomial equal to the square of the atom
        self.defs = []      # z3 constraints defining the atom
        self.deps = ()      # ids of atoms occurring in definition
        self.ev = None      # function(env)->float evaluating the atom
        self.recip = None   # for reciprocal atoms: the denominator poly
        self.cancel = None  # id of the atom whose product with this one is 1


class Store:
    """Per-obligation registry of atoms."""

    def __init__(self):
        self.atoms = []
        self.keys = {}
        self.inputs = []
        self.zname = {}
        self.keep = []
        self.zcache = {}

    def new(self, kind, name=None):
        i = len(self.atoms)
        a = Atom(i, kind, name or '%s!%d' % (kind, i))
        self.atoms.append(a)
        self.zname[a.name] = a
        return a


ST = Store()


def reset_store():
    global ST
    ST.__init__()
    _zvars_cache.clear()


# -------------------------------------------------------------- polynomials

class Poly:
    __slots__ = ('t', '_h', 'nn')

    def __init__(self, t, nn=False):
        self.t = t
        self._h = None
        self.nn = nn        # known to be non-negative by construction

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    @property
    def const(self):
        """Constant value or None."""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def __repr__(self):
        return 'Poly(%s)' % (show(self))


def show(p, lim=12):
    out = []
    for k, (m, c) in enumerate(p.t.items()):
        if k >= lim:
            out.append('...')
            break
        out.append('%s%s' % (c, ''.join('*' + ST.atoms[a].name for a in m)))
    return ' + '.join(out) or '0'


ZERO = Poly({}, True)
ONE = Poly({(): 1}, True)


def pconst(c):
    if c == 0:
        return ZERO
    if c == 1:
        return ONE
    return Poly({(): norm_frac(c)}, c > 0)


def patom(a):
    return Poly({(a.id,): 1}, bool(a.nonneg))


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    x, y = a.t, b.t
    if len(x) < len(y):
        x, y = y, x
    r = dict(x)
    for m, c in y.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if s == 0:
                del r[m]
            else:
                r[m] = s if type(s) is int else norm_frac(s)
    return Poly(r, a.nn and b.nn)


def pscale(a, k):
    if k == 0 or not a.t:
        return ZERO
    if k == 1:
        return a
    return Poly({m: norm_frac(c * k) for m, c in a.t.items()}, a.nn and k > 0)


def pneg(a):
    return Poly({m: -c for m, c in a.t.items()})


def psub(a, b):
    if not b.t:
        return a
    return padd(a, pneg(b))


TERM_LIMIT = 400000


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca = a.const
    if ca is not None:
        return pscale(b, ca)
    cb = b.const
    if cb is not None:
        return pscale(a, cb)
    if len(a.t) * len(b.t) > TERM_LIMIT:
        raise Unsupported('polynomial product too large')
    r = {}
    atoms = ST.atoms
    todo = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            if not m1:
                m = m2
                chk = False
            elif not m2:
                m = m1
                chk = False
            else:
                m = tuple(sorted(m1 + m2))
                chk = True
            c = c1 * c2
            if chk:
                red = False
                prev = -1
                for x in m:
                    ax = atoms[x]
                    if x == prev and ax.sq is not None:
                        red = True
                        break
                    if ax.cancel is not None and x > ax.cancel and \
                            ax.cancel in m:
                        red = True
                        break
                    prev = x
                if red:
                    if todo is None:
                        todo = []
                    todo.append((m, c))
                    continue
                # reciprocal * its denominator when denominator is monomial
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = o + c
                if s == 0:
                    del r[m]
                else:
                    r[m] = s
    for m in r:
        c = r[m]
        if type(c) is not int:
            r[m] = norm_frac(c)
    res = Poly(r)
    if todo:
        for m, c in todo:
            res = padd(res, pscale(reduce_mono(m), c))
    if res.t and (a is b or a.nn and b.nn or (ratio(a, b) or 0) > 0):
        res = Poly(res.t, True)
    return res


def reduce_mono(m):
    """Rewrite repeated square-rule atoms in a monomial."""
    atoms = ST.atoms
    l = list(m)
    for x in m:
        c = atoms[x].cancel
        if c is not None and x > c and c in l and x in l:
            l.remove(x)
            l.remove(c)
    m = tuple(l)
    rest = []
    fac = []
    i = 0
    n = len(m)
    while i < n:
        if i + 1 < n and m[i] == m[i + 1] and atoms[m[i]].sq is not None:
            fac.append(atoms[m[i]].sq)
            i += 2
        else:
            rest.append(m[i])
            i += 1
    p = Poly({tuple(rest): 1})
    for f in fac:
        p = pmul(p, f)
    return p


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def content(p):
    """Positive rational content."""
    g = 0
    l = 1
    for c in p.t.values():
        if type(c) is int:
            g = math.gcd(g, c)
        else:
            g = math.gcd(g, c.numerator)
            l = l * c.denominator // math.gcd(l, c.denominator)
    return norm_frac(Fraction(g, l))


def primitive(p, sign=False):
    """p = c * q with q primitive; with sign, leading coef of q positive."""
    c = content(p)
    if sign and p.t[min(p.t)] < 0:
        c = -c
    if c == 1:
        return 1, p
    return c, pscale(p, Fraction(1) / c)


def ratio(p, q):
    """k with p == k q for non-zero polynomials, or None"""
    if len(p.t) != len(q.t):
        return None
    k = None
    for m, c in q.t.items():
        d = p.t.get(m)
        if d is None:
            return None
        if k is None:
            k = norm_frac(Fraction(d) / Fraction(c))
        elif d != c * k:
            return None
    return k


def conj_ratio(a, b):
    """k > 0 with a == k conj(b), or None"""
    k = ratio(a.im, b.im)
    if k is None or k >= 0:
        return None
    k = -k
    if not a.re.t and not b.re.t:
        return k
    if not a.re.t or not b.re.t or ratio(a.re, b.re) != k:
        return None
    return k


def is_nonneg(p):
    return p.nn or syn_nonneg(p)


def syn_nonneg(p):
    atoms = ST.atoms
    for m, c in p.t.items():
        if c < 0:
            return False
        i = 0
        n = len(m)
        while i < n:
            if i + 1 < n and m[i] == m[i + 1]:
                i += 2
            elif atoms[m[i]].nonneg:
                i += 1
            else:
                return False
    return True


def is_pos(p):
    if not syn_nonneg(p):
        return False
    atoms = ST.atoms
    for m in p.t:
        if all(atoms[x].pos for x in m):
            return True
    return False


# --------------------------------------------------------------- z3 bridge

def zq(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


def to_z3(p):
    r = ST.zcache.get(p)
    if r is not None:
        return r
    if not p.t:
        e = z3.RealVal(0)
    else:
        terms = []
        atoms = ST.atoms
        for m, c in p.t.items():
            fs = [atoms[x].z for x in m]
            if c != 1 or not fs:
                fs.insert(0, zq(c))
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        e = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    ST.zcache[p] = e
    return e


_zvars_cache = {}


def zvars(e):
    """Atom ids of the constants occurring in a z3 expression."""
    k = e.get_id()
    r = _zvars_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a = ST.zname.get(x.decl().name())
                if a is not None:
                    out.add(a.id)
        else:
            stack.extend(x.children())
    _zvars_cache[k] = (e, out)
    return out


def pvars(p):
    s = set()
    for m in p.t:
        s.update(m)
    return s


def closure_defs(ids):
    """All definitional constraints needed for a set of atom ids."""
    seen = set()
    stack = list(ids)
    out = []
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        a = ST.atoms[i]
        out.extend(a.defs)
        stack.extend(a.deps)
    return out, seen


# ---------------------------------------------------------- atom builders

def _keyed(key, build):
    a = ST.keys.get(key)
    if a is None:
        a = build()
        ST.keys[key] = a
    return a


def ite_poly(cond, a, b):
    """cond: z3 Bool or python bool."""
    if cond is True:
        return a
    if cond is False:
        return b
    if a == b:
        return a
    # pull out common scale of 0/x shapes for canonicity
    key = ('ite', cond.get_id(), a, b)

    def build():
        at = ST.new('ite')
        ST.keep.append(cond)
        za, zb = to_z3(a), to_z3(b)
        at.defs = [z3.If(cond, at.z == za, at.z == zb)]
        at.deps = tuple(zvars(cond) | pvars(a) | pvars(b))
        at.nonneg = is_nonneg(a) and is_nonneg(b)
        at.pos = is_pos(a) and is_pos(b)
        at.ev = ('ite', cond, a, b)
        return at
    return patom(_keyed(key, build))


def abs_poly(p):
    c = p.const
    if c is not None:
        return pconst(abs(c))
    if is_nonneg(p):
        return p
    if is_nonneg(pneg(p)):
        return pneg(p)
    k, q = primitive(p, sign=True)
    # monomial: |m| splits over nothing further

    def build():
        at = ST.new('abs')
        zq_ = to_z3(q)
        at.defs = [z3.If(zq_ >= 0, at.z == zq_, at.z == -zq_)]
        at.deps = tuple(pvars(q))
        at.nonneg = True
        at.sq = pmul(q, q) if len(q.t) <= 600 else None
        at.ev = ('abs', q)
        return at
    return pscale(patom(_keyed(('abs', q), build)), abs(k))


def _sqrt_int(n):
    """n = s^2 * f, f squarefree (bounded trial)."""
    s, f, d = 1, 1, 2
    while d * d <= n and d < 2000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        if e % 2:
            f *= d
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        s *= r
    else:
        f *= n
    return s, f


def sqrt_poly(p):
    """Non-negative square root; requires p >= 0 (caller checks)."""
    c = p.const
    if c is not None:
        if c == 0:
            return ZERO
        fr = Fraction(c)
        s, f = _sqrt_int(fr.numerator * fr.denominator)
        k = norm_frac(Fraction(s, fr.denominator))
        if f == 1:
            return pconst(k)

        def build():
            at = ST.new('root%d' % f)
            at.defs = [at.z > 0, at.z * at.z == f]
            at.nonneg = at.pos = True
            at.sq = pconst(f)
            at.ev = ('const', math.sqrt(f))
            return at
        return pscale(patom(_keyed(('sqrtc', f), build)), k)
    k, q = primitive(p)
    if len(q.t) == 1:
        (m, cc), = q.t.items()
        cnt = {}
        for x in m:
            cnt[x] = cnt.get(x, 0) + 1
        if all(v % 2 == 0 for v in cnt.values()) and cc == 1:
            half = tuple(sorted(x for x, v in cnt.items()
                                for _ in range(v // 2)))
            return pmul(sqrt_poly(pconst(k)), abs_poly(Poly({half: 1})))
    rt = _poly_sqrt(q)
    if rt is not None:
        return pmul(sqrt_poly(pconst(k)), abs_poly(rt))

    def build():
        at = ST.new('sqrt')
        zq_ = to_z3(q)
        at.defs = [at.z >= 0, z3.Implies(zq_ >= 0, at.z * at.z == zq_)]
        at.deps = tuple(pvars(q))
        at.nonneg = True
        at.pos = is_pos(q)
        at.sq = q
        at.ev = ('sqrt', q)
        return at
    return pmul(patom(_keyed(('sqrt', q), build)), sqrt_poly(pconst(k)))


def _poly_sqrt(q):
    """Exact square root of a perfect-square quadratic form, else None."""
    lin = {}
    n = len(q.t)
    if n > 200:
        return None
    for m, c in q.t.items():
        if len(m) > 2:
            return None
        if len(m) == 0:
            key = None
        elif len(m) == 2 and m[0] == m[1]:
            key = m[0]
        else:
            continue
        if c < 0:
            return None
        fr = Fraction(c)
        s, f = _sqrt_int(fr.numerator * fr.denominator)
        if f != 1:
            return None
        lin[key] = Fraction(s, fr.denominator)
    if not lin:
        return None
    keys = list(lin)
    k0 = next((k for k in keys if k is not None), None)
    if k0 is None:
        return None
    r = {}
    for k in keys:
        if k == k0:
            r[(k,)] = norm_frac(lin[k])
            continue
        m = (k0,) if k is None else tuple(sorted((k0, k)))
        c = q.t.get(m, 0)
        if c == 0:
            return None
        sg = 1 if c > 0 else -1
        r[() if k is None else (k,)] = norm_frac(sg * lin[k])
    rp = Poly(r)
    return rp if pmul(rp, rp) == q else None


def recip_atom(q):
    """Atom equal to 1/q (q primitive, positive-leading)."""
    def build():
        at = ST.new('inv')
        zq_ = to_z3(q)
        at.defs = [z3.Implies(zq_ != 0, at.z * zq_ == 1)]
        at.deps = tuple(pvars(q))
        at.pos = is_pos(q)
        at.nonneg = at.pos or is_nonneg(q)
        at.ev = ('inv', q)
        at.recip = q
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if len(m) == 1 and c == 1 and ST.atoms[m[0]].sq is None:
                at.cancel = m[0]
                ST.atoms[m[0]].cancel = at.id
        return at
    return _keyed(('inv', q), build)


def mul_den(p, x, K):
    """p * d^K where x is the reciprocal atom of d."""
    d = ST.atoms[x].recip
    r = ZERO
    for k, pk in split_by(p, x).items():
        if k >= K:
            t = pmul(pk, Poly({(x,) * (k - K): 1})) if k > K else pk
        else:
            t = pmul(pk, ppow(d, K - k))
        r = padd(r, t)
    return r


def flatten_quotient(a, b):
    """(a', b') with a/b = a'/b' and b' free of reciprocal atoms."""
    for _ in range(12):
        inv = [x for x in pvars(b) if ST.atoms[x].recip is not None]
        if not inv:
            return a, b
        x = max(inv)
        K = max(split_by(b, x))
        d = ST.atoms[x].recip
        if len(b.t) * len(d.t) > 4000 or len(a.t) * len(d.t) > 20000:
            return None
        b = mul_den(b, x, K)
        a = mul_den(a, x, K)
    return None


def mono_div(p, d):
    """Exact division of p by monomial-term d if possible else None."""
    (m, c), = d.t.items()
    r = {}
    for pm, pc in p.t.items():
        l = list(pm)
        for x in m:
            if x in l:
                l.remove(x)
            else:
                return None
        r[tuple(l)] = norm_frac(Fraction(pc) / c)
    return Poly(r)


def exact_div(p, d):
    """Exact multivariate division p/d or None (lex leading terms)."""
    if len(d.t) == 1:
        return mono_div(p, d)
    if len(p.t) > 4000:
        return None
    ids = sorted(pvars(d) | pvars(p))
    pos = {x: k for k, x in enumerate(ids)}

    def expo(m):
        e = [0] * len(ids)
        for x in m:
            e[pos[x]] += 1
        return tuple(e)
    # atoms with square rules break plain division
    for x in pvars(d):
        if ST.atoms[x].sq is not None:
            return None
    dl = max(d.t, key=expo)
    dc = d.t[dl]
    rem = dict(p.t)
    quo = {}
    steps = 0
    while rem:
        m = max(rem, key=expo)
        l = list(m)
        for x in dl:
            if x in l:
                l.remove(x)
            else:
                return None
        qm = tuple(l)
        qc = norm_frac(Fraction(rem[m]) / dc)
        quo[qm] = qc
        for m2, c2 in d.t.items():
            mm = tuple(sorted(qm + m2))
            s = rem.get(mm, 0) - qc * c2
            if s == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = norm_frac(s)
        steps += 1
        if steps > 500:
            return None
    return Poly(quo)


def pdiv(a, b, tryexact=True):
    """a / b assuming b != 0."""
    c = b.const
    if c is not None:
        if c == 0:
            raise Unsupported('division by constant zero')
        return pscale(a, Fraction(1) / c)
    if not a.t:
        return ZERO
    if any(ST.atoms[x].recip is not None for x in pvars(b)) and len(b.t) > 1:
        f = flatten_quotient(a, b)
        if f is not None:
            a, b = f
            c = b.const
            if c is not None:
                return pscale(a, Fraction(1) / c)
    k, q = primitive(b, sign=True)
    if len(q.t) == 1 and len(next(iter(q.t))) == 1:
        # 1/root constants rationalise
        at = ST.atoms[next(iter(q.t))[0]]
        if at.sq is not None and at.sq.const not in (None, 0):
            return pscale(pmul(a, q), Fraction(1) / (at.sq.const * k))
        if at.recip is not None:
            return pscale(pmul(a, at.recip), Fraction(1) / k)
    if tryexact and len(a.t) <= 60:
        e = exact_div(a, q)
        if e is not None:
            return pscale(e, Fraction(1) / k)
    if len(q.t) == 1:
        # split monomial denominators into reciprocals of single atoms
        r = pscale(a, Fraction(1) / k)
        for x in next(iter(q.t)):
            r = pmul_inv(r, patom(ST.atoms[x]))
        return r
    return pscale(pmul_inv(a, q), Fraction(1) / k)


def pmul_inv(a, q):
    at = recip_atom(q)
    if len(q.t) == 1:
        # cancel x * (1/x) in monomials
        x = next(iter(q.t))[0]
        r = {}
        rest = {}
        for m, c in a.t.items():
            if x in m:
                l = list(m)
                l.remove(x)
                mm = tuple(l)
                r[mm] = r.get(mm, 0) + c
            else:
                mm = tuple(sorted(m + (at.id,)))
                r[mm] = r.get(mm, 0) + c
        return Poly({m: norm_frac(c) for m, c in r.items() if c != 0})
    return pmul(a, patom(at))


# ------------------------------------------------------------ reduction

def split_by(p, x):
    """p as polynomial in atom x: {power: Poly}."""
    out = {}
    for m, c in p.t.items():
        k = m.count(x)
        mm = tuple(y for y in m if y != x) if k else m
        d = out.setdefault(k, {})
        d[mm] = d.get(mm, 0) + c
    return {k: Poly({m: c for m, c in d.items() if c != 0})
            for k, d in out.items()}


def divmod_in(p, d, v):
    """Divide p by d as polynomials in atom v (d monic-up-to-constant in v)."""
    ds = split_by(d, v)
    n = max(ds)
    lc = ds[n].const
    if lc is None or n == 0:
        return None
    quo = ZERO
    rem = p
    it = 0
    while True:
        rs = split_by(rem, v)
        k = max(rs) if rs else 0
        if k < n or not rem.t:
            return quo, rem
        t = pmul(pscale(rs[k], Fraction(1) / lc), Poly({(v,) * (k - n): 1}))
        quo = padd(quo, t)
        rem = psub(rem, pmul(t, d))
        it += 1
        if it > 40:
            return None


def reduce_recip(p, limit=60000):
    """Normalise p modulo inv(d)*d = 1.  Sound rewriting (d != 0)."""
    atoms = ST.atoms
    for _ in range(40):
        inv = sorted((x for x in pvars(p) if atoms[x].recip is not None),
                     reverse=True)
        if not inv:
            return p
        # choose common main variable
        dens = [atoms[x].recip for x in inv]
        cand = None
        common = set.intersection(*[pvars(d) for d in dens])
        cand = [v for v in common if atoms[v].sq is None
                and atoms[v].recip is None]
        if not cand:
            cand = [v for v in pvars(dens[0]) if atoms[v].sq is None
                    and atoms[v].recip is None]

        def score(v):
            bad = 0
            for d in dens:
                s = split_by(d, v)
                n = max(s)
                if n == 0 or s[n].const is None:
                    bad += 1
                else:
                    bad += 0.01 * n
            return bad
        cand.sort(key=score)
        changed = False
        for x in inv:
            d = atoms[x].recip
            s = split_by(p, x)
            if max(s) == 0:
                continue
            top = max(s)
            pk = s[top]
            done = False
            for v in cand[:2]:
                if v not in pvars(d):
                    continue
                if len(pk.t) * len(d.t) > limit * 10:
                    continue
                qr = divmod_in(pk, d, v)
                if qr is None:
                    continue
                q, r = qr
                if q.t:
                    # replace pk * x^top by q * x^(top-1) + r * x^top
                    rest = psub(p, pmul(pk, Poly({(x,) * top: 1})))
                    p = padd(rest, padd(pmul(q, Poly({(x,) * (top - 1): 1})),
                                        pmul(r, Poly({(x,) * top: 1}))))
                    changed = True
                done = True
                break
            if not p.t:
                return p
        if not changed:
            return p
    return p


def clear_recip(p, limit=60000):
    """Multiply out all reciprocal atoms; None if too large."""
    atoms = ST.atoms
    for _ in range(60):
        inv = [x for x in pvars(p) if atoms[x].recip is not None]
        if not inv:
            return p
        x = max(inv)
        d = atoms[x].recip
        s = split_by(p, x)
        K = max(s)
        r = ZERO
        dk = ONE
        pw = [ONE]
        for _k in range(K):
            if len(pw[-1].t) * len(d.t) > limit:
                return None
            pw.append(pmul(pw[-1], d))
        for k, pk in s.items():
            if len(pk.t) * len(pw[K - k].t) > limit * 4:
                return None
            r = padd(r, pmul(pk, pw[K - k]))
        p = r
        if len(p.t) > limit:
            return None
        if not p.t:
            return p
    return None


# -------------------------------------------------------------- evaluation

class Env:
    """Float evaluation of atoms from input values."""

    def __init__(self, vals):
        self.v = dict(vals)      # atom id -> float
        self.zc = {}

    def atom(self, i):
        r = self.v.get(i)
        if r is not None:
            return r
        a = ST.atoms[i]
        ev = a.ev
        if ev is None:
            raise Unsupported('no evaluation for atom %s' % a.name)
        k = ev[0]
        if k == 'ite':
            r = self.poly(ev[2]) if self.bool(ev[1]) else self.poly(ev[3])
        elif k == 'abs':
            r = abs(self.poly(ev[1]))
        elif k == 'sqrt':
            r = math.sqrt(max(0.0, self.poly(ev[1])))
        elif k == 'inv':
            d = self.poly(ev[1])
            r = 1.0 / d if d != 0 else 0.0
        elif k == 'const':
            r = ev[1]
        elif k == 'fn':
            r = ev[1](*[self.poly(x) for x in ev[2]])
        elif k == 'brent':
            fp, tid, a, b = ev[1]
            lo, hi = self.poly(a), self.poly(b)

            def g(t):
                e = Env(self.v)
                # drop cached dependents of t
                e.v = {q: x for q, x in self.v.items()
                       if ST.atoms[q].kind == 'real' or ST.atoms[q].ev is None}
                e.v[tid] = t
                return e.poly(fp)
            flo = g(lo)
            for _ in range(80):
                mid = (lo + hi) / 2
                fm = g(mid)
                if (fm > 0) == (flo > 0):
                    lo, flo = mid, fm
                else:
                    hi = mid
            r = (lo + hi) / 2
        else:
            raise Unsupported(k)
        self.v[i] = r
        return r

    def poly(self, p):
        s = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a in m:
                x *= self.atom(a)
            s += x
        return s

    def bool(self, e):
        if e is True or e is False:
            return e
        return bool(self.z(e))

    TOL = 1e-6

    def rng(self, e):
        """(surely, maybe) truth of a boolean under small perturbation."""
        if e is True or e is False:
            return e, e
        if z3.is_true(e):
            return True, True
        if z3.is_false(e):
            return False, False
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_AND:
            r = [self.rng(c) for c in ch]
            return all(x[0] for x in r), all(x[1] for x in r)
        if d == z3.Z3_OP_OR:
            r = [self.rng(c) for c in ch]
            return any(x[0] for x in r), any(x[1] for x in r)
        if d == z3.Z3_OP_NOT:
            a, b = self.rng(ch[0])
            return not b, not a
        if d == z3.Z3_OP_IMPLIES:
            a, b = self.rng(ch[0])
            x, y = self.rng(ch[1])
            return (not b) or x, (not a) or y
        if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                 z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and not z3.is_bool(ch[0]):
            v = self.z(ch[0]) - self.z(ch[1])
            t = self.TOL * (1 + abs(self.z(ch[1])))
            if d in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                return v < -t, v <= t
            if d in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                return v > t, v >= -t
            if d == z3.Z3_OP_EQ:
                return False, abs(v) <= t
            return abs(v) > t, True
        b = bool(self.z(e))
        return b, b

    def z(self, e):
        k = e.get_id()
        if k in self.zc:
            return self.zc[k][1]
        r = self._z(e)
        self.zc[k] = (e, r)
        return r

    def _z(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_rational_value(e):
            return float(e.numerator_as_long()) / e.denominator_as_long()
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            a = ST.zname.get(e.decl().name())
            if a is None:
                raise Unsupported('eval const ' + str(e))
            if a.kind == 'bool':
                return bool(self.v.get(a.id, 0))
            return self.atom(a.id)
        if d == z3.Z3_OP_AND:
            return all(self.z(c) for c in ch)
        if d == z3.Z3_OP_OR:
            return any(self.z(c) for c in ch)
        if d == z3.Z3_OP_NOT:
            return not self.z(ch[0])
        if d == z3.Z3_OP_IMPLIES:
            return (not self.z(ch[0])) or self.z(ch[1])
        if d == z3.Z3_OP_XOR:
            return bool(self.z(ch[0])) != bool(self.z(ch[1]))
        if d == z3.Z3_OP_ITE:
            return self.z(ch[1]) if self.z(ch[0]) else self.z(ch[2])
        v = [self.z(c) for c in ch]
        if d == z3.Z3_OP_ADD:
            return sum(v)
        if d == z3.Z3_OP_MUL:
            r = 1.0
            for x in v:
                r *= x
            return r
        if d == z3.Z3_OP_SUB:
            return v[0] - sum(v[1:])
        if d == z3.Z3_OP_UMINUS:
            return -v[0]
        if d == z3.Z3_OP_EQ:
            if isinstance(v[0], bool):
                return v[0] == v[1]
            return abs(v[0] - v[1]) <= 1e-9 * (1 + abs(v[0]))
        if d == z3.Z3_OP_DISTINCT:
            return abs(v[0] - v[1]) > 1e-9 * (1 + abs(v[0]))
        if d == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if d == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if d == z3.Z3_OP_LT:
            return v[0] < v[1]
        if d == z3.Z3_OP_GT:
            return v[0] > v[1]
        if d == z3.Z3_OP_TO_REAL or d == z3.Z3_OP_TO_INT:
            return v[0]
        raise Unsupported('eval op %s' % e.decl())


# ------------------------------------------------------------ booleans

def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def pcmp(p, op):
    """Compare polynomial with 0; python bool or z3."""
    c = p.const
    if c is not None:
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    if is_pos(p):
        return op in ('>', '>=', '!=')
    n = pneg(p)
    if is_pos(n):
        return op in ('<', '<=', '!=')
    if op == '>=' and is_nonneg(p):
        return True
    if op == '<' and is_nonneg(p):
        return False
    if op == '<=' and is_nonneg(n):
        return True
    if op == '>' and is_nonneg(n):
        return False
    k, q = primitive(p, sign=True)
    if k < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==',
              '!=': '!='}[op]
    z = to_z3(q)
    if op == '<':
        return z < 0
    if op == '<=':
        return z <= 0
    if op == '>':
        return z > 0
    if op == '>=':
        return z >= 0
    if op == '==':
        return z == 0
    return z != 0
