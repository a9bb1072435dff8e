"""Reference operators for convolutional problems, internal array layout
(spatial..., channel, signal, filter), written as explicit sums of shifts."""
import itertools
from .spec import ndi


def vals(shape, seed=0):
    """Deterministic dyadic constants, no symmetry."""
    n = 1
    for s in shape:
        n *= s
    out = []
    x = 12345 + 7919 * seed
    for _ in range(n):
        x = (x * 1103515245 + 12345) % (1 << 31)
        v = ((x >> 12) % 15) - 7
        out.append((v if v else 3) / 4.0)
    import numpy
    return numpy.array(out).reshape(shape)


def shift(np, X, j, dimN, sign=1):
    for k in range(dimN):
        if j[k] % X.shape[k]:
            X = np.roll(X, sign * j[k], axis=k)
    return X


def Dmul(np, D, X, dimN):
    """sum_m d_m * x_m -> signal array (filter axis singleton)"""
    acc = 0
    for j in ndi(D.shape[:dimN]):
        acc = acc + D[j] * shift(np, X, j, dimN)
    return np.sum(acc, axis=-1, keepdims=True)


def DTmul(np, D, R, dimN):
    """adjoint of Dmul with respect to X"""
    acc = 0
    for j in ndi(D.shape[:dimN]):
        acc = acc + np.conj(D[j]) * shift(np, R, j, dimN, -1)
    if D.shape[dimN] > 1:
        acc = np.sum(acc, axis=dimN, keepdims=True)
    return acc


def Dpart(np, D, X, dimN):
    """d_m * x_m without the sum over filters"""
    acc = 0
    for j in ndi(D.shape[:dimN]):
        acc = acc + D[j] * shift(np, X, j, dimN)
    return acc


def XTmul(np, X, R, dshape, dimN):
    """adjoint of D -> Dmul(D, X) summed over signals (and, for a
    single-channel dictionary, channels), cropped to the filter support"""
    out = []
    import numpy
    res = None
    for j in ndi(dshape[:dimN]):
        g = np.conj(shift(np, X, j, dimN)) * R
        g = np.sum(g, axis=tuple(range(dimN)) + (dimN + 1,), keepdims=True)
        if dshape[dimN] == 1 and g.shape[dimN] > 1:
            g = np.sum(g, axis=dimN, keepdims=True)
        if res is None:
            res = np.zeros(tuple(dshape[:dimN]) + tuple(g.shape[dimN:]), dtype=g.dtype)
        res[j] = g[(0,) * dimN]
    return res


def grad(np, X, ax):
    """circular backward difference as used for gradient regularisation"""
    return X - np.roll(X, 1, axis=ax)


def gradT(np, X, ax):
    return X - np.roll(X, -1, axis=ax)


def soft(np, v, t):
    a = np.abs(v)
    return np.where(a > t, np.where(v >= 0, a - t, t - a), 0.0)


def sumsq(np, x):
    return np.sum(x * np.conj(x)).real if np.iscomplexobj(x) else np.sum(x * x)


def intdiff(c, make, shape, dt, attrs=('X', 'Y', 'U')):
    """An integer signal gives the iterate that the same numbers give in
    floating point (which the other cases of the property decide)."""
    S = c.real('int:S', shape, lo=0 if dt[0] == 'u' else -9, hi=9, dtype=dt)
    c.keep(S)
    a, b = make(S), make(S.astype('float64'))
    xa, xb = a.solve(), b.solve()
    c.unchanged()
    c.true('floating point', xa.dtype.kind in 'fc')
    c.eq('solution', xa, xb)
    for n in attrs:
        if hasattr(b, n):
            c.eq(n, getattr(a, n), getattr(b, n))
    if hasattr(b, 'Nx'):        # dimensions which scale the stopping tolerances
        c.true('number of primal values', int(b.Nx) == b.X.size)
        c.true('number of constraints', int(b.Nc) == b.Y.size)
