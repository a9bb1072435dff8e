"""Exact / contract models of the numerical libraries sporco calls into."""
from __future__ import annotations
import math
import cmath
import sys
from fractions import Fraction
import numpy as np
import z3
from . import core, val, arr
from .core import Unsupported, ZERO, ONE, pconst, pscale, padd, psub, pmul, pneg
from .val import S, B, DT, as_S, asB, mkB, ENG, F64, C128, BOOL, real_dt
from .arr import SymArray, as_sym, wrap, norm_axes

USED = {}       # stub name -> call count (reported in evidence)


def used(n):
    USED[n] = USED.get(n, 0) + 1


# ------------------------------------------------------------------ DFT

def cos_exact(num, den):
    """cos(pi * num/den) as a polynomial (surds), or None."""
    f = Fraction(num, den) % 2
    if f > 1:
        f = 2 - f
    sg = 1
    if f > Fraction(1, 2):
        f = 1 - f
        sg = -1
    if f == 0:
        return pconst(sg)
    if f == Fraction(1, 2):
        return ZERO
    if f == Fraction(1, 3):
        return pconst(Fraction(sg, 2))
    if f == Fraction(1, 6):
        return pscale(core.sqrt_poly(pconst(3)), Fraction(sg, 2))
    if f == Fraction(1, 4):
        return pscale(core.sqrt_poly(pconst(2)), Fraction(sg, 2))
    if f == Fraction(1, 5):    # (1+sqrt5)/4
        return pscale(padd(ONE, core.sqrt_poly(pconst(5))), Fraction(sg, 4))
    if f == Fraction(2, 5):    # (sqrt5-1)/4
        return pscale(psub(core.sqrt_poly(pconst(5)), ONE), Fraction(sg, 4))
    if f == Fraction(1, 12):   # (sqrt6+sqrt2)/4
        s2, s3 = core.sqrt_poly(pconst(2)), core.sqrt_poly(pconst(3))
        return pscale(pmul(s2, padd(s3, ONE)), Fraction(sg, 4))
    if f == Fraction(5, 12):
        s2, s3 = core.sqrt_poly(pconst(2)), core.sqrt_poly(pconst(3))
        return pscale(pmul(s2, psub(s3, ONE)), Fraction(sg, 4))
    return None


def twiddle(k, n, sign):
    """exp(sign * 2 pi i k / n) as S."""
    c = cos_exact(2 * k, n)
    # sin(x) = cos(pi/2 - x):  pi*(1/2 - 2k/n)
    s = cos_exact(n - 4 * k, 2 * n)
    if c is None or s is None:
        raise Unsupported('no exact twiddle factor for DFT size %d' % n)
    return c, (s if sign > 0 else pneg(s))


def dft1(vec, sign, n):
    """vec: list of S of length n -> list of (re, im) polys."""
    tw = [twiddle(k, n, sign) for k in range(n)]
    out = []
    for j in range(n):
        re, im = ZERO, ZERO
        for k in range(n):
            x = vec[k]
            c, s = tw[(j * k) % n]
            cc, sc = c.const, s.const
            if c.t:
                re = padd(re, pscale(x.re, cc) if cc is not None else pmul(x.re, c))
                if x.im.t:
                    im = padd(im, pscale(x.im, cc) if cc is not None else pmul(x.im, c))
            if s.t:
                im = padd(im, pscale(x.re, sc) if sc is not None else pmul(x.re, s))
                if x.im.t:
                    re = psub(re, pscale(x.im, sc) if sc is not None else pmul(x.im, s))
        out.append((re, im))
    return out


def bad_any(vec):
    b = False
    for x in vec:
        if x.sp is not None:
            b = core.bor(b, val.anybad(x.sp))
    return None if b is False else (b, False, False)


def cdt(dt):
    if dt.kind == 'c':
        return dt
    return np.dtype('complex64') if dt in (np.dtype('float32'), np.dtype('float16')) else C128


def resize_axis(raw, n, ax):
    m = raw.shape[ax]
    if m == n:
        return raw
    if m > n:
        return raw[(slice(None),) * ax + (slice(0, n),)]
    shp = list(raw.shape)
    shp[ax] = n
    o = arr.filled(tuple(shp), arr.ZERO_S)
    o[(slice(None),) * ax + (slice(0, m),)] = raw
    return o


def _norm_axes_s(a, s, axes):
    nd = a.ndim
    if s is not None:
        s = [int(x) for x in (s if not isinstance(s, SymArray) else arr.int_array(s))]
    if axes is None:
        if s is None:
            axes = list(range(nd))
        else:
            axes = list(range(nd - len(s), nd))
    axes = [int(x) for x in axes]
    axes = [x + nd if x < 0 else x for x in axes]
    for x in axes:
        if x < 0 or x >= nd:
            raise np.exceptions.AxisError(x, nd)
    if s is None:
        s = [a.shape[x] for x in axes]
    if len(s) != len(axes):
        raise ValueError('Shape and axes have different lengths.')
    return s, axes


def _c2c(raw, n, ax, sign, inv, dt):
    raw = resize_axis(raw, n, ax)
    r = np.moveaxis(raw, ax, -1)
    o = np.empty(r.shape, dtype=object)
    for i in np.ndindex(r.shape[:-1]):
        v = [as_S(x) for x in r[i]]
        d = dft1(v, sign, n)
        sp = bad_any(v)
        for k in range(n):
            re, im = d[k]
            if inv:
                re, im = pscale(re, Fraction(1, n)), pscale(im, Fraction(1, n))
            o[i + (k,)] = S(re, im, dt, sp)
    return np.moveaxis(o, -1, ax)


def _check_norm(norm):
    if norm not in (None, 'backward'):
        raise Unsupported('fft norm %r' % norm)


def fftn(a, s=None, axes=None, norm=None, **k):
    used('fftn')
    _check_norm(norm)
    a = as_sym(a)
    dt = cdt(a._dt)
    s, axes = _norm_axes_s(a, s, axes)
    r = a.raw
    for n, ax in list(zip(s, axes))[::-1]:
        r = _c2c(r, n, ax, -1, False, dt)
    return wrap(np.ascontiguousarray(r), dt)


def ifftn(a, s=None, axes=None, norm=None, **k):
    used('ifftn')
    _check_norm(norm)
    a = as_sym(a)
    dt = cdt(a._dt)
    s, axes = _norm_axes_s(a, s, axes)
    r = a.raw
    for n, ax in list(zip(s, axes))[::-1]:
        r = _c2c(r, n, ax, 1, True, dt)
    return wrap(np.ascontiguousarray(r), dt)


def rfftn(a, s=None, axes=None, norm=None, **k):
    used('rfftn')
    _check_norm(norm)
    a = as_sym(a)
    if a._dt.kind == 'c':
        # numpy/pyfftw discard the imaginary part (with a warning)
        a = a.real
    dt = cdt(a._dt)
    s, axes = _norm_axes_s(a, s, axes)
    r = a.raw
    n, ax = s[-1], axes[-1]
    r = _c2c(r, n, ax, -1, False, dt)
    r = r[(slice(None),) * ax + (slice(0, n // 2 + 1),)]
    for n, ax in list(zip(s[:-1], axes[:-1]))[::-1]:
        r = _c2c(r, n, ax, -1, False, dt)
    return wrap(np.ascontiguousarray(r), dt)


def irfftn(a, s=None, axes=None, norm=None, **k):
    used('irfftn')
    _check_norm(norm)
    a = as_sym(a)
    dt = cdt(a._dt)
    rdt = real_dt(dt)
    if s is None:
        s_, axes = _norm_axes_s(a, None, axes)
        s = list(s_)
        s[-1] = 2 * (s[-1] - 1)
    else:
        s, axes = _norm_axes_s(a, s, axes)
    r = a.raw
    for n, ax in list(zip(s[:-1], axes[:-1]))[::1]:
        r = _c2c(r, n, ax, 1, True, dt)
    n, ax = s[-1], axes[-1]
    r = resize_axis(r, n // 2 + 1, ax)
    r = np.moveaxis(r, ax, -1)
    o = np.empty(r.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(r.shape[:-1]):
        v = [as_S(x) for x in r[i]]
        sp = bad_any(v)
        full = [S(v[0].re, ZERO)]
        for q in range(1, n):
            if q < n - q:
                full.append(v[q])
            elif q == n - q:
                full.append(S(v[q].re, ZERO))
            else:
                full.append(v[n - q].conjugate())
        d = dft1(full, 1, n)
        for q in range(n):
            o[i + (q,)] = S(pscale(d[q][0], Fraction(1, n)), ZERO, rdt, sp)
    return wrap(np.ascontiguousarray(np.moveaxis(o, -1, ax)), rdt)


def fft(a, n=None, axis=-1, norm=None, **k):
    return fftn(a, None if n is None else (n,), (axis,), norm)


def ifft(a, n=None, axis=-1, norm=None, **k):
    return ifftn(a, None if n is None else (n,), (axis,), norm)


def rfft(a, n=None, axis=-1, norm=None, **k):
    return rfftn(a, None if n is None else (n,), (axis,), norm)


def irfft(a, n=None, axis=-1, norm=None, **k):
    return irfftn(a, None if n is None else (n,), (axis,), norm)


def fft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return fftn(a, s, axes, norm)


def ifft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return ifftn(a, s, axes, norm)


def rfft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return rfftn(a, s, axes, norm)


def irfft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return irfftn(a, s, axes, norm)


def _dct_mat(n):
    """Orthonormal DCT-II matrix of polys."""
    M = []
    for k in range(n):
        row = []
        for j in range(n):
            c = cos_exact((2 * j + 1) * k, 2 * n)
            if c is None:
                raise Unsupported('no exact DCT of size %d' % n)
            sc = core.sqrt_poly(pconst(Fraction(1 if k == 0 else 2, n)))
            row.append(pmul(sc, c))
        M.append(row)
    return M


def _dct_apply(x, axis, transpose):
    x = as_sym(x)
    ax = norm_axes(axis, x.ndim)[0]
    n = x.shape[ax]
    M = _dct_mat(n)
    r = np.moveaxis(x.raw, ax, -1)
    o = np.empty(r.shape, dtype=object)
    for i in np.ndindex(r.shape[:-1]):
        v = [as_S(q) for q in r[i]]
        for k in range(n):
            acc = as_S(0)
            for j in range(n):
                acc = acc + S(M[j][k] if transpose else M[k][j]) * v[j]
            o[i + (k,)] = S(acc.re, acc.im, x._dt, acc.sp)
    return wrap(np.moveaxis(o, -1, ax), x._dt if x._dt.kind in 'fc' else F64)


def dct(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False, **k):
    used('dct')
    if norm != 'ortho' or type not in (2, 3) or n is not None:
        raise Unsupported('dct variant')
    return _dct_apply(x, axis, type == 3)


def idct(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False, **k):
    used('idct')
    if norm != 'ortho' or type not in (2, 3) or n is not None:
        raise Unsupported('idct variant')
    return _dct_apply(x, axis, type == 2)


def dctn(x, type=2, s=None, axes=None, norm=None, **k):
    x = as_sym(x)
    for ax in norm_axes(axes, x.ndim):
        x = dct(x, type, None, ax, norm)
    return x


def idctn(x, type=2, s=None, axes=None, norm=None, **k):
    x = as_sym(x)
    for ax in norm_axes(axes, x.ndim):
        x = idct(x, type, None, ax, norm)
    return x


# --------------------------------------------------------- dense solvers

class Factor(np.ndarray):
    """Opaque factorisation; carries the matrix it represents."""
    def __array_finalize__(self, obj):
        self.A = getattr(obj, 'A', None)


def mkfactor(A):
    f = np.zeros(A.shape).view(Factor)
    f.A = A
    return f


def lu_factor(a, overwrite_a=False, check_finite=True):
    used('scipy.linalg.lu_factor')
    a = as_sym(a).copy()
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise ValueError('expected square matrix')
    return mkfactor(a), np.arange(a.shape[0])


def lu_solve(lp, b, trans=0, overwrite_b=False, check_finite=True):
    used('scipy.linalg.lu_solve')
    lu, piv = lp
    A = lu.A
    if trans == 1:
        A = A.T
    elif trans == 2:
        A = np.conj(A.T)
    return arr.solve_exact(A, b)


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    """Reads only one triangle; fails unless positive definite."""
    used('scipy.linalg.cho_factor')
    a = as_sym(a)
    n = a.shape[0]
    M = a.copy()
    r = M.raw
    for i in range(n):
        for j in range(i):
            if lower:
                r[j, i] = as_S(r[i, j]).conjugate()
            else:
                r[i, j] = as_S(r[j, i]).conjugate()
    f = mkfactor(M)
    f.lower = lower
    return f, lower


def cho_solve(cl, b, overwrite_b=False, check_finite=True):
    used('scipy.linalg.cho_solve')
    c, lower = cl
    fl = getattr(c, 'lower', lower)
    if bool(fl) != bool(lower):
        raise Unsupported('cho_solve with mismatched triangle')
    return arr.solve_exact(c.A, b)


def la_solve(a, b, **k):
    used('scipy.linalg.solve')
    return arr.solve_exact(a, b)


class LinearOperator:
    def __init__(self, shape=None, matvec=None, rmatvec=None, matmat=None,
                 dtype=None, rmatmat=None):
        self.shape = tuple(int(x) for x in shape)
        self._mv = matvec
        self._rmv = rmatvec
        self.dtype = dtype

    def matvec(self, x):
        return self._mv(x)

    def rmatvec(self, x):
        return self._rmv(x)

    def __call__(self, x):
        return self._mv(x)
    __mul__ = __matmul__ = dot = __call__


def op_matrix(A, n, dt):
    if isinstance(A, LinearOperator):
        cols = []
        for j in range(n):
            e = arr.make((n,), 0.0, dt)
            e[j] = 1.0
            cols.append(as_sym(A.matvec(e)).ravel())
        return arr._stacker(np.stack)(cols, axis=1)
    return as_sym(A)


def cg(A, b, x0=None, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None,
       **k):
    """Contract: converged solution of A x = b."""
    used('scipy.sparse.linalg.cg')
    b = as_sym(b)
    bf = b.ravel()
    n = bf.shape[0]
    dt = bf._dt
    Mx = op_matrix(A, n, dt)
    x = solve_blocks(Mx, bf)
    return wrap(x.raw, dt), 0


def solve_blocks(M, b):
    """Exact solve using the block structure of M (connected components)."""
    n = M.shape[0]
    nz = [[not (as_S(M.raw[i, j]).isconst and as_S(M.raw[i, j]).re.const == 0
                and as_S(M.raw[i, j]).im.const == 0) for j in range(n)]
          for i in range(n)]
    comp = [-1] * n
    c = 0
    for s in range(n):
        if comp[s] >= 0:
            continue
        st = [s]
        comp[s] = c
        while st:
            u = st.pop()
            for v in range(n):
                if comp[v] < 0 and (nz[u][v] or nz[v][u]):
                    comp[v] = c
                    st.append(v)
        c += 1
    out = np.empty(n, dtype=object)
    for q in range(c):
        idx = [i for i in range(n) if comp[i] == q]
        x = arr.solve_exact(wrap(M.raw[np.ix_(idx, idx)], M._dt),
                            wrap(b.raw[idx], b._dt))
        for k, i in enumerate(idx):
            out[i] = x.raw[k]
    return wrap(out, np.result_type(M._dt, b._dt))


# ------------------------------------------------------- spectral contracts

def _polys(A):
    return [as_S(x).re for x in A.raw.ravel()]


def _fresh(n, kind, evs, deps, nonneg=False):
    out = []
    for k in range(n):
        at = core.ST.new(kind)
        at.deps = deps
        at.nonneg = nonneg
        at.ev = evs(k)
        out.append(at)
    return out


def svd(A, full_matrices=True, compute_uv=True):
    used('svd')
    A = as_sym(A)
    if A._dt.kind == 'c':
        raise Unsupported('complex svd')
    m, n = A.shape
    k = min(m, n)
    if full_matrices and compute_uv and m != n:
        raise Unsupported('full svd')
    P = _polys(A)
    key = ('svd', tuple(P), m, n)
    if key not in core.ST.keys:
        deps = set()
        for p in P:
            deps |= core.pvars(p)

        def ev(which):
            def mk(i):
                def f(*v):
                    U, s, V = np.linalg.svd(np.array(v).reshape(m, n), full_matrices=False)
                    return float({'U': U, 's': s, 'V': V}[which].ravel()[i])
                return ('fn', f, tuple(P))
            return mk
        U = _fresh(m * k, 'svdU', ev('U'), (), False)
        s = _fresh(k, 'svds', ev('s'), (), True)
        V = _fresh(k * n, 'svdV', ev('V'), (), False)
        allat = U + s + V
        uz = np.array([a.z for a in U], dtype=object).reshape(m, k)
        sz = [a.z for a in s]
        vz = np.array([a.z for a in V], dtype=object).reshape(k, n)
        ds = [x >= 0 for x in sz]
        ds += [sz[i] >= sz[i + 1] for i in range(k - 1)]
        for i in range(m):
            for j in range(n):
                ds.append(z3.Sum(*[uz[i, q] * sz[q] * vz[q, j] for q in range(k)])
                          == core.to_z3(P[i * n + j]))
        for p in range(k):
            for q in range(p, k):
                ds.append(z3.Sum(*[uz[i, p] * uz[i, q] for i in range(m)]) == (1 if p == q else 0))
                ds.append(z3.Sum(*[vz[p, i] * vz[q, i] for i in range(n)]) == (1 if p == q else 0))
        dp = tuple(deps | {a.id for a in allat})
        allat[0].defs = ds
        allat[0].deps = dp
        for a in allat[1:]:
            a.deps = (allat[0].id,)
        core.ST.keys[key] = (U, s, V)
    U, s, V = core.ST.keys[key]

    def mk(ats, shp):
        o = np.empty(len(ats), dtype=object)
        for i, a in enumerate(ats):
            o[i] = S(core.patom(a))
        return wrap(o.reshape(shp), A._dt)
    ss = mk(s, (k,))
    if not compute_uv:
        return ss
    return mk(U, (m, k)), ss, mk(V, (k, n))


def eigh(A):
    used('eigh')
    A = as_sym(A)
    if A._dt.kind == 'c':
        raise Unsupported('complex eigh')
    n = A.shape[0]
    # eigh reads the lower triangle only
    M = A.copy()
    for i in range(n):
        for j in range(i):
            M.raw[j, i] = M.raw[i, j]
    P = _polys(M)
    key = ('eigh', tuple(P), n)
    if key not in core.ST.keys and all(p.const is not None for p in P):
        # constant matrix with a rational decomposition
        from fractions import Fraction
        F = [Fraction(p.const) for p in P]
        wn, Qn = np.linalg.eigh(np.array([float(f) for f in F]).reshape(n, n))
        wr = [Fraction(float(x)).limit_denominator(1000) for x in wn]
        qr = [Fraction(float(x)).limit_denominator(1000) for x in Qn.ravel()]
        if all(abs(float(x) - y) < 1e-12 for x, y in zip(wr + qr, list(wn) + list(Qn.ravel()))) and \
           all(sum(qr[i * n + q] * wr[q] * qr[j * n + q] for q in range(n)) == F[i * n + j]
               for i in range(n) for j in range(n)) and \
           all(sum(qr[i * n + q] * qr[j * n + q] for q in range(n)) == (1 if i == j else 0)
               for i in range(n) for j in range(n)):
            core.ST.keys[key] = ([core.pconst(x) for x in wr], [core.pconst(x) for x in qr])
    if key not in core.ST.keys:
        deps = set()
        for p in P:
            deps |= core.pvars(p)

        def ev(which):
            def mk(i):
                def f(*v):
                    w, Q = np.linalg.eigh(np.array(v).reshape(n, n))
                    return float((w if which == 'w' else Q).ravel()[i])
                return ('fn', f, tuple(P))
            return mk
        w = _fresh(n, 'eigw', ev('w'), ())
        if n == 2:
            # orthogonal 2x2 matrices: rotation angle and column sign
            def ev2(fun):
                def f(*v):
                    return float(fun(np.linalg.eigh(np.array(v).reshape(2, 2))[1]))
                return ('fn', f, tuple(P))
            C, Sn, Sg = _fresh(3, 'eigr', lambda i: ev2(
                (lambda Q: Q[0, 0], lambda Q: Q[1, 0], np.linalg.det)[i]), ())
            Sn.sq = psub(ONE, pmul(core.patom(C), core.patom(C)))
            Sg.sq = ONE
            pc, ps, pg = map(core.patom, (C, Sn, Sg))
            qp = [pc, pneg(pmul(ps, pg)), ps, pmul(pc, pg)]
            al = w + [C, Sn, Sg]
            wz = [a.z for a in w]
            ds = [wz[0] <= wz[1], C.z * C.z + Sn.z * Sn.z == 1,
                  z3.Or(Sg.z == 1, Sg.z == -1)]
            W = [core.patom(a) for a in w]
            for i in range(2):
                for j in range(2):
                    e = ZERO
                    for q in range(2):
                        e = padd(e, pmul(pmul(qp[2 * i + q], W[q]), qp[2 * j + q]))
                    ds.append(core.to_z3(e) == core.to_z3(P[2 * i + j]))
            al[0].defs = ds
            al[0].deps = tuple(deps | {a.id for a in al})
            for a in al[1:]:
                a.deps = (al[0].id,)
            core.ST.keys[key] = (W, qp)
            return eigh(A)
        Q = _fresh(n * n, 'eigQ', ev('Q'), ())
        al = w + Q
        qz = np.array([a.z for a in Q], dtype=object).reshape(n, n)
        wz = [a.z for a in w]
        ds = [wz[i] <= wz[i + 1] for i in range(n - 1)]
        for i in range(n):
            for j in range(n):
                ds.append(z3.Sum(*[qz[i, q] * wz[q] * qz[j, q] for q in range(n)])
                          == core.to_z3(P[i * n + j]))
        for p in range(n):
            for q in range(p, n):
                ds.append(z3.Sum(*[qz[i, p] * qz[i, q] for i in range(n)]) == (1 if p == q else 0))
                ds.append(z3.Sum(*[qz[p, i] * qz[q, i] for i in range(n)]) == (1 if p == q else 0))
        al[0].defs = ds
        al[0].deps = tuple(deps | {a.id for a in al})
        for a in al[1:]:
            a.deps = (al[0].id,)
        core.ST.keys[key] = ([core.patom(a) for a in w], [core.patom(a) for a in Q])
    w, Q = core.ST.keys[key]
    wo = np.empty(n, dtype=object)
    qo = np.empty(n * n, dtype=object)
    for i, a in enumerate(w):
        wo[i] = S(a)
    for i, a in enumerate(Q):
        qo[i] = S(a)
    return wrap(wo, A._dt), wrap(qo.reshape(n, n), A._dt)


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100,
           full_output=False, disp=True):
    """Contract: t in [a,b] with f(t) = 0; f(a), f(b) of opposite sign."""
    used('scipy.optimize.brentq')
    a, b = as_S(a), as_S(b)
    fa, fb = as_S(f(a, *args)), as_S(f(b, *args))
    if bool(fa * fb > 0):
        raise ValueError('f(a) and f(b) must have different signs')
    at = core.ST.new('root')
    t = S(core.patom(at))
    ft = as_S(f(t, *args))
    ds = [core.to_z3(ft.re) == 0]
    for c in (asB(t >= a), asB(t <= b)):
        if c is not True:
            ds.append(c if c is not False else z3.BoolVal(False))
    dep = core.pvars(ft.re) | core.pvars(a.re) | core.pvars(b.re)
    at.defs = ds
    at.deps = tuple(dep - {at.id})
    at.nonneg = core.is_nonneg(a.re)

    fz = (ft.re, at.id, a.re, b.re)
    at.ev = ('brent', fz)
    return t


# ------------------------------------------------------------ numexpr

def ne_evaluate(ex, local_dict=None, global_dict=None, out=None, order='K',
                casting='safe', _frame_depth=1, **k):
    used('numexpr.evaluate')
    fr = sys._getframe(_frame_depth)
    g = dict(fr.f_globals) if global_dict is None else dict(global_dict)
    l = dict(fr.f_locals) if local_dict is None else dict(local_dict)
    fns = {
        'where': lambda c, a, b: arr.f_where(c, a, b),
        'abs': np.abs, 'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log,
        'log10': np.log10, 'conj': np.conj, 'real': np.real, 'imag': np.imag,
        'sum': np.sum, 'prod': np.prod, 'arctan2': np.arctan2,
        'min': np.min, 'max': np.max, 'maximum': np.maximum, 'minimum': np.minimum,
    }
    env = {}
    env.update(g)
    env.update(l)
    env.update(fns)
    res = eval(compile(ex, '<numexpr>', 'eval'), {'__builtins__': {}}, env)
    if out is not None:
        out[...] = res
        return out
    if isinstance(res, (S, B, int, float, complex)):
        return as_sym(res)
    return res


# ------------------------------------------------------------ multiprocessing

class FakeRaw:
    def __init__(self, typecode, n):
        self.n = n


SHARED = []      # object buffers that are shared between processes
SHDT = []        # and their types


def is_shared(a):
    if not isinstance(a, np.ndarray):
        return False
    b = a.view(np.ndarray)
    while isinstance(b.base, np.ndarray):
        b = b.base
    return any(b is s for s in SHARED)


def frombuffer(raw, dtype=float, count=-1, offset=0):
    if isinstance(raw, FakeRaw):
        used('multiprocessing.RawArray')
        n = count if count >= 0 else raw.n // DT.unwrap(dtype).itemsize
        key = id(raw)
        base = arr.filled((n,), arr.ZERO_S)
        SHARED.append(base)
        SHDT.append(DT.unwrap(dtype))
        r = base.view(SymArray)
        r._dt = DT.unwrap(dtype)
        return r
    return np.frombuffer(raw, dtype=DT.unwrap(dtype), count=count, offset=offset)


SCHEDULE = {'log': None, 'fresh': None}


class FakePool:
    """Fork-semantics pool: workers see a private snapshot of module globals
    taken at pool creation, except for shared raw buffers.

    With SCHEDULE['log'] set to a list, every map is decided for all
    interleavings of its tasks: each task is run a second time, by a newly
    forked worker, from a shared memory in which every element that another
    task of the same map writes holds an arbitrary value (any moment of any
    schedule).  The pairs (value written, value written under interference)
    are appended to the log and have to be equal; so do the values of
    elements written by two tasks."""

    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        used('multiprocessing.Pool')
        import sys as _s
        self.snap = {}
        for name, m in list(_s.modules.items()):
            if name == 'sporco' or name.startswith('sporco.'):
                self.snap[name] = self._copy(vars(m))
        self.fork = {n: self._copy(d) for n, d in self.snap.items()}
        self.closed = False
        if initializer is not None:
            self._run(initializer, initargs)

    @staticmethod
    def _copy(d):
        out = {}
        for k, v in d.items():
            if isinstance(v, np.ndarray) and not is_shared(v):
                v = v.copy()
            out[k] = v
        return out

    def _run(self, f, args, fresh=False):
        if self.closed:
            raise ValueError('Pool not running')
        import sys as _s
        live = {}
        snap = {n: self._copy(d) for n, d in self.fork.items()} if fresh else self.snap
        for name, sn in snap.items():
            m = _s.modules[name]
            live[name] = dict(vars(m))
            vars(m).clear()
            vars(m).update(sn)
        try:
            return f(*args)
        finally:
            for name, lv in live.items():
                m = _s.modules[name]
                if not fresh:
                    self.snap[name] = dict(vars(m))
                vars(m).clear()
                vars(m).update(lv)

    def _map(self, f, argl):
        n = len(argl)
        log = SCHEDULE['log']
        if log is None:
            return [self._run(f, a) for a in argl]
        B0 = [s.copy() for s in SHARED]

        def put(st):
            for s, v in zip(SHARED, st):
                s[...] = v

        res, out, wr = [None] * n, [], []
        for i in range(n):
            put(B0)
            res[i] = self._run(f, argl[i])
            out.append([s.copy() for s in SHARED])
            wr.append([np.array([x is not y for x, y in zip(s, b)], dtype=bool).reshape(s.shape)
                       for s, b in zip(SHARED, B0)])
        for i in range(n):
            st = [b.copy() for b in B0]
            for q in range(len(st)):
                oth = np.zeros(st[q].shape, dtype=bool)
                for j in range(n):
                    if j != i:
                        oth |= wr[j][q]
                        for e in np.flatnonzero(wr[i][q] & wr[j][q]):
                            if j > i:
                                log.append((out[i][q][e], out[j][q][e]))
                for e in np.flatnonzero(oth):
                    st[q][e] = SCHEDULE['fresh'](SHDT[q])
            put(st)
            self._run(f, argl[i], fresh=True)
            for q, s in enumerate(SHARED):
                for e in range(s.size):
                    if wr[i][q][e]:
                        log.append((out[i][q][e], s[e]))
                    elif s[e] is not st[q][e]:
                        log.append((st[q][e], s[e]))
        st = [b.copy() for b in B0]
        for i in range(n):
            for q in range(len(st)):
                st[q][wr[i][q]] = out[i][q][wr[i][q]]
        put(st)
        return res

    def map(self, f, it, chunksize=None):
        return self._map(f, [(x,) for x in it])

    def starmap(self, f, it, chunksize=None):
        return self._map(f, [tuple(x) for x in it])

    imap = map

    def apply(self, f, args=(), kwds={}):
        return self._run(lambda *a: f(*a, **kwds), args)

    def close(self): self.closed = True
    def join(self): pass
    def terminate(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): return None


# ------------------------------------------------------------ convolutions

def convolve2d(a, k, mode='full', boundary='fill', fillvalue=0):
    used('scipy.signal.convolve2d')
    a, k = as_sym(a), as_sym(k)
    H, W = a.shape
    h, w = k.shape
    if boundary == 'symm':
        p = arr.f_pad(a, ((h, h), (w, w)), 'symmetric')
    elif boundary == 'wrap':
        p = arr.f_pad(a, ((h, h), (w, w)), 'wrap')
    else:
        p = arr.f_pad(a, ((h, h), (w, w)), 'constant')
    full = np.empty((H + h - 1, W + w - 1), dtype=object)
    for i in range(H + h - 1):
        for j in range(W + w - 1):
            acc = as_S(0)
            for u in range(h):
                for v in range(w):
                    acc = acc + as_S(k.raw[u, v]) * as_S(p.raw[i - u + h, j - v + w])
            full[i, j] = acc
    dt = np.result_type(a._dt, k._dt)
    if mode == 'full':
        return wrap(full, dt)
    if mode == 'same':
        r0, c0 = (h - 1) // 2, (w - 1) // 2
        return wrap(full[r0:r0 + H, c0:c0 + W].copy(), dt)
    r0, c0 = h - 1, w - 1
    return wrap(full[r0:H, c0:W].copy(), dt)


# ---------------------------------------------- linear library operators

def _snap(w):
    """weights that are multiples of 1/64 up to rounding are taken as such"""
    q = Fraction(round(w * 64), 64)
    return q if abs(float(q) - w) < 1e-9 else Fraction(w)


def lin_op(fn, z):
    """fn is linear in its array argument: its matrix is taken from the real
    implementation (NaN marks outputs outside its domain)."""
    z = as_sym(z)
    n = z.size
    cols = []
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        cols.append(np.asarray(fn(e.reshape(z.shape)), dtype=float))
    shp = cols[0].shape
    flat = z.raw.reshape(-1)
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        if any(c[i] != c[i] for c in cols):
            out[i] = as_S(float('nan'))
            continue
        acc = as_S(0)
        for k in range(n):
            w = _snap(float(cols[k][i]))
            if w:
                acc = acc + as_S(flat[k]) * as_S(w)
        out[i] = acc
    return wrap(out, np.dtype('float64'))


def gaussian_filter(x, sigma, *a, **k):
    used('scipy.ndimage.gaussian_filter')
    import scipy.ndimage
    return lin_op(lambda e: scipy.ndimage.gaussian_filter(e, sigma, *a, **k), x)


def griddata(pts, z, xi, method='linear', **k):
    used('scipy.interpolate.griddata')
    import scipy.interpolate
    if method == 'cubic':
        from .core import Unsupported
        raise Unsupported('griddata cubic')
    p, x = np_num(pts), (tuple(np_num(q) for q in xi) if isinstance(xi, tuple) else np_num(xi))
    return lin_op(lambda e: scipy.interpolate.griddata(p, e, x, method=method, **k), z)


def np_num(a):
    if isinstance(a, tuple):
        return tuple(np_num(q) for q in a)
    return a.__array__().astype(float) if not isinstance(a, SymArray) else \
        np.array([float(as_S(v)) for v in a.raw.ravel()]).reshape(a.shape)


class _Interp:
    def __init__(self, mk, z):
        self.mk, self.z = mk, z

    def __call__(self, *a, **k):
        a = [np_num(q) if isinstance(q, SymArray) else q for q in a]
        return lin_op(lambda e: self.mk(e)(*a, **k), self.z)

    def ev(self, *a, **k):
        return lin_op(lambda e: self.mk(e).ev(*a, **k), self.z)


def interpolator(name):
    """interpolators with arguments (x, y, z, ...) or (points, z, ...) linear in z"""
    pos = 2 if name == 'RectBivariateSpline' else 1

    def make(*a, **k):
        used('scipy.interpolate.' + name)
        import scipy.interpolate
        cls = getattr(scipy.interpolate, name)
        h = [np_num(q) if isinstance(q, SymArray) else q for q in a[:pos]]
        return _Interp(lambda e: cls(*h, e, *a[pos + 1:], **k), a[pos])
    return make


class _Res:
    pass


def lin_filter(fn):
    """Filter that is linear in its first argument."""
    from .arr import has_sym

    def f(input, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(v) for v in k.values()):
            if all(getattr(as_S(e), 'isconst', False) for x in list(a) + list(k.values()) if has_sym(x)
                   for e in as_sym(x).raw.ravel()):
                cv = lambda x: np.array([float(as_S(e).concrete()) for e in as_sym(x).raw.ravel()]).reshape(
                    as_sym(x).shape) if has_sym(x) else x
                a, k = [cv(x) for x in a], {n: cv(v) for n, v in k.items()}
            else:
                raise Unsupported('symbolic filter')
        x = as_sym(input)
        if x._dt.kind == 'c':
            return lin_op(lambda z: fn(z, *a, **k), x.real) + lin_op(lambda z: fn(z, *a, **k), x.imag) * 1j
        return lin_op(lambda z: fn(z, *a, **k), x)
    return f


def convolve_nd(name):
    """scipy.signal.convolve and relatives: direct sum."""
    def f(in1, in2, mode='full', *args, axes=None, **k):
        used('scipy.signal.' + name)
        a, b = as_sym(in1), as_sym(in2)
        if a.ndim != b.ndim or axes is not None and len(tuple(np.atleast_1d(axes))) != a.ndim:
            raise Unsupported('convolution over a part of the axes')
        if name == 'correlate':
            b = np.conj(b[(slice(None, None, -1),) * b.ndim])
        sh = tuple(n + m - 1 for n, m in zip(a.shape, b.shape))
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            out[i] = as_S(0)
        for i in np.ndindex(a.shape):
            for j in np.ndindex(b.shape):
                q = tuple(u + v for u, v in zip(i, j))
                out[q] = out[q] + as_S(a.raw[i]) * as_S(b.raw[j])
        r = wrap(out, np.result_type(a._dt, b._dt))
        if mode == 'full':
            return r
        if mode == 'valid' and all(n <= m for n, m in zip(a.shape, b.shape)):
            a, b = b, a
        w = a.shape if mode == 'same' else tuple(n - m + 1 for n, m in zip(a.shape, b.shape))
        return r[tuple(slice((n - m) // 2, (n - m) // 2 + m) for n, m in zip(sh, w))]
    return f


def linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), method='highs', **kw):
    """Contract: x is optimal, i.e. primal feasible with a dual feasible y of
    equal objective (constant A and c)."""
    used('scipy.optimize.linprog')
    c, A, b = as_sym(c), as_sym(A_ub), as_sym(b_ub).reshape(-1)
    if A_eq is not None:
        raise Unsupported('linprog with equality constraints')
    m, n = A.shape
    bl = list(bounds) if bounds is not None else [(0, None)] * n
    if len(bl) == 2 and not any(isinstance(q, (tuple, list)) for q in bl):
        bl = [tuple(bl)] * n
    for q in bl:
        if tuple(q) not in ((None, None), (0, None)):
            raise Unsupported('linprog bounds')
    deps = set()
    for v in b.raw:
        deps |= core.pvars(as_S(v).re)
    x = [core.ST.new('lp') for _ in range(n)]
    y = [core.ST.new('lpdual') for _ in range(m)]
    ds = []
    xz, yz = [a.z for a in x], [a.z for a in y]

    def k(v):
        q = as_S(v).re.const
        if q is None:
            raise Unsupported('linprog with symbolic coefficients')
        return core.zq(Fraction(q))
    bz = [core.to_z3(as_S(v).re) for v in b.raw]
    slack = []
    for i in range(m):
        row = z3.Sum([k(A.raw[i, j]) * xz[j] for j in range(n)])
        ds.append(row <= bz[i])
        slack.append(bz[i] - row)
        ds.append(yz[i] >= 0)
    for j in range(n):
        g = z3.Sum([k(A.raw[i, j]) * yz[i] for i in range(m)]) + k(c.raw[j])
        if tuple(bl[j]) == (None, None):
            ds.append(g == 0)
        else:
            ds += [xz[j] >= 0, g >= 0, z3.Or(xz[j] == 0, g == 0)]
    for i in range(m):
        ds.append(z3.Or(yz[i] == 0, slack[i] == 0))
    P = tuple(as_S(v).re for v in b.raw)
    An, cn = np_num(A), np_num(c)

    def ev(which, i):
        def f(*v):
            import scipy.optimize
            r = scipy.optimize.linprog(cn, An, np.array(v), bounds=bl, method='highs')
            return float(r.x[i] if which == 'x' else -r.ineqlin.marginals[i])
        return ('fn', f, P)
    for i, a in enumerate(x):
        a.ev = ev('x', i)
    for i, a in enumerate(y):
        a.ev = ev('y', i)
    allat = x + y
    allat[0].defs = ds
    allat[0].deps = tuple(deps | {a.id for a in allat})
    for a in allat[1:]:
        a.deps = (allat[0].id,)
    r = _Res()
    r.x = wrap(np.array([S(core.patom(a)) for a in x] + [None], dtype=object)[:-1], F64)
    r.success, r.status = True, 0
    r.fun = arr.f_dot(c, r.x)
    return r
