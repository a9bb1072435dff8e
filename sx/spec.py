"""Specification helpers usable with symbolic and concrete arrays alike."""
import itertools


def ndi(shape):
    return itertools.product(*[range(n) for n in shape])


def norm_axes(axes, nd):
    if axes is None:
        return tuple(range(nd))
    if isinstance(axes, int):
        axes = (axes,)
    return tuple(a % nd for a in axes)


def cconv(np, a, b, axes, origin=None):
    """Circular convolution over axes; other axes broadcast.  Written as an
    explicit sum of products."""
    nd = max(a.ndim, b.ndim)
    axes = norm_axes(axes, nd)
    shp, osh = [], []
    for k in range(nd):
        n = max(a.shape[k], b.shape[k])
        osh.append(n)
    out = np.zeros(tuple(osh), dtype='complex128' if np.iscomplexobj(a) or
                   np.iscomplexobj(b) else 'float64')
    bax = [(range(b.shape[k]) if k in axes else [None]) for k in range(nd)]
    for i in ndi(osh):
        acc = 0
        for j in itertools.product(*bax):
            bi, ai = [], []
            ok = True
            for k in range(nd):
                if k in axes:
                    bi.append(j[k])
                    t = (i[k] - j[k]) % osh[k]
                    if t >= a.shape[k]:
                        ok = False
                        break
                    ai.append(t)
                else:
                    bi.append(i[k] if b.shape[k] > 1 else 0)
                    ai.append(i[k] if a.shape[k] > 1 else 0)
            if ok:
                acc = acc + a[tuple(ai)] * b[tuple(bi)]
        out[i] = acc
    if origin is not None:
        r = np.zeros(tuple(osh), dtype=out.dtype)
        for i in ndi(osh):
            src = list(i)
            for k, ax in enumerate(axes):
                src[ax] = (i[ax] + origin[k]) % osh[ax]
            r[i] = out[tuple(src)]
        out = r
    return out


def ccorr(np, a, b, axes, bshape):
    """Adjoint of b -> cconv(a, b) with b zero-padded from bshape:
    r[j] = sum_i conj(a[i-j]) y[i], cropped to bshape on axes."""
    raise NotImplementedError


def abs2(np, x):
    return np.real(x) ** 2 + np.imag(x) ** 2


def nrm2(np, x):
    """Squared Euclidean norm."""
    return np.sum(abs2(np, x))


def zpadto(np, x, shape, axes):
    osh = list(x.shape)
    for k, ax in enumerate(axes):
        osh[ax] = shape[k]
    out = np.zeros(tuple(osh), dtype=x.dtype)
    out[tuple(slice(0, n) for n in x.shape)] = x
    return out


def soft(np, v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)
