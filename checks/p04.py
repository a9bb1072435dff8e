"""P04: array manipulation utilities."""
from sx.run import Registry
from sx import spec
reg = Registry()
MODULES = ['sporco.array']
BOUNDS = 'arrays of one to three dimensions, up to 24 entries; all entry values'


def inp(c, name, shape, cx=0):
    return c.cplx(name, shape) if cx else c.real(name, shape)


@reg.case('zpad', [dict(shape=s, pd=p, ax=a, cx=x) for s, p, a, x in [
    ((2, 3), (1, 2), 0, 0), ((2, 3), (0, 2), 1, 1), ((3,), (2, 0), 0, 0), ((2, 2, 2), (1, 1), 1, 0),
    ((2, 2, 2), (1, 0), 2, 0), ((1, 2), (0, 0), 1, 0)]])
def zpad(c, shape, pd, ax, cx):
    A = c.mod('sporco.array')
    np = c.np
    x = inp(c, 'x', shape, cx)
    c.keep(x)
    y = A.zpad(x, pd, ax)
    c.unchanged()
    osh = tuple(n + (sum(pd) if k == ax else 0) for k, n in enumerate(shape))
    ref = np.zeros(osh, dtype=x.dtype)
    sl = tuple(slice(pd[0], pd[0] + shape[ax]) if k == ax else slice(None) for k in range(len(shape)))
    ref[sl] = x
    c.eq('pad', y, ref)
    c.true('dtype', y.dtype == x.dtype)


@reg.case('zdivide', [dict(sx=a, sy=b, cx=x, cy=y) for a, b, x, y in [
    ((4,), (4,), 0, 0), ((2, 2), (2, 1), 0, 0), ((2, 2), (1, 2), 1, 0), ((3,), (3,), 1, 1),
    ((2, 2, 2), (2, 2, 1), 0, 0)]])
def zdivide(c, sx, sy, cx, cy):
    A = c.mod('sporco.array')
    np = c.np
    x, y = inp(c, 'x', sx, cx), inp(c, 'y', sy, cy)
    c.keep(x, y)
    z = A.zdivide(x, y)
    c.unchanged()
    yb = np.broadcast_to(y, sx)
    for i in spec.ndi(sx):
        if c.branch(spec.abs2(np, yb[i]) == 0):
            c.eq('zero', z[i], 0 * x[i])
        else:
            c.eq('quot', z[i] * yb[i], x[i])
    c.true('dtype', z.dtype == x.dtype)


@reg.case('atleast_nd', [dict(n=n, shape=s) for n, s in [
    (3, (2, 2)), (2, (2, 2)), (1, (2, 1, 2)), (5, (3,)), (4, (2, 1, 2))]])
def atleast_nd(c, n, shape):
    A = c.mod('sporco.array')
    x = c.real('x', shape)
    y = A.atleast_nd(n, x)
    osh = shape + (1,) * (n - len(shape))
    c.true('shape', tuple(y.shape) == osh)
    for i in spec.ndi(shape):
        c.eq('val', y[i + (0,) * (len(osh) - len(shape))], x[i])


@reg.case('split', [dict(shape=s, axis=a) for s in [(2, 3), (2, 1, 3)] for a in range(-len(s), len(s))] +
          [dict(shape=(4,), axis=0)])
def split(c, shape, axis):
    A = c.mod('sporco.array')
    x = c.real('x', shape)
    v = A.split(x, axis)
    ax = axis % len(shape)
    c.true('len', len(v) == shape[ax])
    for k in range(shape[ax]):
        c.eq('part', v[k], x[(slice(None),) * ax + (k,)])


def wrap(n):
    return lambda i: i % n


def refl(n):
    def f(i):
        if n == 1:
            return 0
        p = 2 * (n - 1)
        i %= p
        return i if i < n else p - i
    return f


def edge(n):
    return lambda i: min(i, n - 1)


def sym(n):
    def f(i):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    return f


PADM = {'wrap': wrap, 'reflect': refl, 'edge': edge, 'symmetric': sym}


@reg.case('rolling_window', [dict(shape=s, wsz=w, wnm=n, pad=p) for s, w, n, p in [
    ((4, 5), (3, 3), None, 'wrap'), ((3,), (2,), None, 'wrap'), ((3,), (2,), (3,), 'wrap'),
    ((3, 2), (2, 2), (3, 2), 'wrap'), ((3, 4), (2, 2), (2, 2), 'wrap'), ((4,), (3,), (4,), 'reflect'),
    ((3, 3), (1, 2), (3, 4), 'symmetric'), ((3, 3), (2, 3), (2, 2), 'edge'),
    ((2, 2, 3), (1, 2, 2), None, 'wrap'), ((2, 3, 2), (2, 2, 1), (2, 1, 3), 'wrap'),
    ((4,), (2,), (1,), 'wrap')]])
def rolling_window(c, shape, wsz, wnm, pad):
    A = c.mod('sporco.array')
    x = c.real('x', shape)
    c.keep(x)
    y = A.rolling_window(x, wsz, wnm) if pad == 'wrap' else A.rolling_window(x, wsz, wnm, pad=pad)
    c.unchanged()
    wn = wnm if wnm is not None else tuple(a - b + 1 for a, b in zip(shape, wsz))
    c.true('shape', tuple(y.shape) == wsz + wn)
    m = [PADM[pad](n) for n in shape]
    for i in spec.ndi(wsz):
        for j in spec.ndi(wn):
            c.eq('win', y[i + j], x[tuple(m[k](i[k] + j[k]) for k in range(len(shape)))])


@reg.case('subsample', [dict(shape=s, step=w, pad=n, mode=p) for s, w, n, p in [
    ((4, 4), (2, 2), False, None), ((6,), (3,), False, None), ((4, 6), (2, 3), False, None),
    ((5,), (2,), False, None), ((5,), (2,), True, None), ((3, 4), (2, 2), True, None),
    ((5, 3), (3, 2), True, 'symmetric'), ((5, 4), (2, 3), True, 'wrap'), ((4, 4), (2, 2), True, None),
    ((3, 2, 4), (2, 1, 2), True, 'edge'), ((4, 3), (3, 1), False, None)]])
def subsample(c, shape, step, pad, mode):
    A = c.mod('sporco.array')
    x = c.real('x', shape)
    c.keep(x)
    kw = {}
    if pad:
        kw['pad'] = True
    if mode:
        kw['mode'] = mode
    y = A.subsample_array(x, step, **kw)
    c.unchanged()
    n = tuple(-(-a // b) if pad else a // b for a, b in zip(shape, step))
    c.true('shape', tuple(y.shape) == step + n)
    m = [PADM[mode or 'reflect'](k) for k in shape]
    for i in spec.ndi(step):
        for j in spec.ndi(n):
            c.eq('smp', y[i + j], x[tuple(m[k](i[k] + step[k] * j[k]) for k in range(len(shape)))])


@reg.case('subsample_bad', [dict(shape=(2, 4), step=(2, 2)), dict(shape=(3,), step=(4,))])
def subsample_bad(c, shape, step):
    A = c.mod('sporco.array')
    x = c.real('x', shape)
    c.raises('rejects', lambda: A.subsample_array(x, step), ValueError)


BLK = [((4, 3), (2, 2), None), ((4, 3), (2, 2), (1, 1)), ((4, 4), (2, 2), (2, 2)), ((5, 3), (2, 2), (2, 1)),
       ((4, 4), (3, 2), (2, 2)), ((3, 3, 2), (2, 2), None), ((4, 3, 2), (2, 2), (2, 1)),
       ((3, 3, 2), (2, 2, 2), (1, 1, 1)), ((5,), (2,), (3,)), ((4,), (1,), None), ((4, 3), (1, 2), (3, 1)),
       ((3, 2, 2), (2, 1), (1, 1)), ((3, 2), (3, 2), None), ((2, 3, 3), (1, 2, 2), (1, 1, 1))]


def blocks(shape, blksz, stp):
    """-> list of (block position indices) in documented (C) order."""
    nd = len(shape)
    b = tuple(blksz) + (1,) * (nd - len(blksz))
    s = tuple(stp or (1,) * len(blksz)) + (1,) * (nd - len(blksz))
    num = tuple((shape[k] - b[k]) // s[k] + 1 for k in range(nd))
    return [tuple(p[k] * s[k] for k in range(nd)) for p in spec.ndi(num)]


@reg.case('extract_blocks', [dict(shape=a, blksz=b, stp=s) for a, b, s in BLK])
def extract_blocks(c, shape, blksz, stp):
    A = c.mod('sporco.array')
    np = c.np
    x = c.real('x', shape)
    c.keep(x)
    y = A.extract_blocks(x, blksz, stp)
    c.unchanged()
    pos = blocks(shape, blksz, stp)
    c.true('shape', tuple(y.shape) == blksz + (len(pos),))
    nb = len(blksz)
    for n, p in enumerate(pos):
        for i in spec.ndi(blksz):
            j = tuple(p[k] + (i[k] if k < nb else 0) for k in range(len(shape)))
            c.eq('blk', y[i + (n,)], x[j])
    if len(shape) == nb + 1:
        ims = tuple(x[..., k] for k in range(shape[-1]))
        c.eq('tuple', A.extract_blocks(ims, blksz, stp), y)


@reg.case('average_blocks', [dict(shape=a, blksz=b, stp=s) for a, b, s in BLK])
def average_blocks(c, shape, blksz, stp):
    A = c.mod('sporco.array')
    np = c.np
    pos = blocks(shape, blksz, stp)
    v = c.real('v', blksz + (len(pos),))
    c.keep(v)
    y = A.average_blocks(v, shape, stp)
    c.unchanged()
    c.true('shape', tuple(y.shape) == shape)
    nb = len(blksz)
    cells = {}
    for n, p in enumerate(pos):
        for i in spec.ndi(blksz):
            j = tuple(p[k] + (i[k] if k < nb else 0) for k in range(len(shape)))
            cells.setdefault(j, []).append(v[i + (n,)])
    for j in spec.ndi(shape):
        if j in cells:
            c.eq('mean', y[j] * len(cells[j]), sum(cells[j]))
        elif not c.sym:
            c.true('nan', np.isnan(y[j]))
    x = c.real('x', shape)
    e = A.average_blocks(A.extract_blocks(x, blksz, stp), shape, stp)
    for j in cells:
        c.eq('roundtrip', e[j], x[j])


@reg.case('combine_blocks', [dict(shape=a, blksz=b, stp=s) for a, b, s in BLK])
def combine_blocks(c, shape, blksz, stp):
    A = c.mod('sporco.array')
    pos = blocks(shape, blksz, stp)
    v = c.real('v', blksz + (len(pos),))
    c.keep(v)

    def wsum(t):
        return sum((len(t) + 1) * q for q in t) if len(t) else 0.0
    y = A.combine_blocks(v, shape, stp, fn=wsum)
    c.unchanged()
    c.true('shape', tuple(y.shape) == shape)
    nb = len(blksz)
    cells = {}
    for n, p in enumerate(pos):
        for i in spec.ndi(blksz):
            j = tuple(p[k] + (i[k] if k < nb else 0) for k in range(len(shape)))
            cells.setdefault(j, []).append(v[i + (n,)])
    for j in spec.ndi(shape):
        c.eq('comb', y[j], wsum(cells.get(j, [])))


@reg.case('median', [dict(shape=(2, 2), blksz=(1, 2)), dict(shape=(3,), blksz=(2,)), dict(shape=(4,), blksz=(3,))])
def median(c, shape, blksz):
    A = c.mod('sporco.array')
    np = c.np
    pos = blocks(shape, blksz, None)
    x = c.real('x', shape)
    y = A.combine_blocks(A.extract_blocks(x, blksz), shape)
    c.eq('roundtrip', y, x)


@reg.case('ntpl', [dict(nf=1, n=3), dict(nf=3, n=2), dict(nf=2, n=1)])
def ntpl(c, nf, n):
    import collections
    A = c.mod('sporco.array')
    np = c.np
    fields = ['f%d' % k for k in range(nf)]
    NT = collections.namedtuple('IterStats', fields)
    v = [[c.real('v%d_%d' % (i, k)) for k in range(nf)] for i in range(n)]
    lst = [NT(*row) for row in v]
    t = A.transpose_ntpl_list(lst)
    c.true('fields', t._fields == tuple(fields))
    c.true('cls', t.__class__.__name__ == 'IterStats')
    for i in range(n):
        for k in range(nf):
            c.eq('col', getattr(t, fields[k])[i], v[i][k])
    c.true('empty', A.transpose_ntpl_list([]) is None)
    r = A.array2ntpl(A.ntpl2array(lst[0]))
    c.true('rfields', r._fields == tuple(fields))
    c.true('rcls', r.__class__.__name__ == 'IterStats')
    for k in range(nf):
        c.eq('rt', r[k], v[0][k])


@reg.case('promote16', [dict(dt='float16'), dict(dt='float32'), dict(dt='float64')])
def promote16(c, dt):
    A = c.mod('sporco.array')
    np = c.np
    x = c.real('x', (2, 2)).astype(dt)
    want = np.dtype('float32') if dt == 'float16' else np.dtype(dt)
    y = A.promote16(x)
    c.true('up', y.dtype == want)
    c.eq('val', y, x)
    rec = []

    def fn(u, a, b=0):
        rec.append(u.dtype)
        return u + a + b
    z = A.promote16(x, fn, 1, b=2)
    c.true('inner', rec[0] == want)
    c.true('back', z.dtype == np.dtype(dt))
    if dt == 'float64':
        c.eq('applied', z, x + 3)
    w = A.promote16(x, lambda u: (u, 2 * u))
    c.true('tuple', isinstance(w, tuple) and len(w) == 2 and all(q.dtype == np.dtype(dt) for q in w))
    if dt == 'float64':
        c.eq('second', w[1], 2 * x)


@reg.case('zdivide_mixed', [dict(sx=a, sy=b, tx=x, ty=y) for a, b, x, y in [
    ((4,), (4,), 'uint8', 'float64'), ((2, 2), (2, 1), 'int64', 'int64'), ((3,), (3,), 'float64', 'complex128'),
    ((2, 1), (2, 2), 'float64', 'float64'), ((2,), (3, 2), 'complex128', 'float64'), ((1, 2), (2, 1), 'int16', 'complex128')]])
def zdivide_mixed(c, sx, sy, tx, ty):
    """integer arrays, real numerator with complex denominator, mutual broadcasting"""
    A = c.mod('sporco.array')
    np = c.np
    x, y = typed(c, 'x', sx, tx), typed(c, 'y', sy, ty)
    c.keep(x, y)
    z = A.zdivide(x, y)
    c.unchanged()
    import numpy
    osh = numpy.broadcast_shapes(sx, sy)
    c.true('shape', tuple(z.shape) == osh)
    xb, yb = (np.broadcast_to(w if w.dtype.kind in 'fc' else w.astype('float64'), osh) for w in (x, y))
    for i in spec.ndi(osh):
        if c.branch(spec.abs2(np, yb[i]) == 0):
            c.eq('zero', z[i], 0 * xb[i])
        else:
            c.eq('quot', z[i] * yb[i], xb[i])


def typed(c, name, shape, dt):
    if dt.startswith('complex'):
        return c.cplx(name, shape)
    if dt.startswith('float'):
        return c.real(name, shape, dtype=dt)
    lo = 0 if dt.startswith('u') else -100
    return c.real('int:' + name, shape, lo=lo, hi=200 if dt == 'uint8' else 100, dtype=dt)


@reg.case('average_int', [dict(shape=a, blksz=b, stp=s, dt=d) for (a, b, s), d in zip(BLK, ('uint8', 'int16', 'int64', 'uint8', 'int8'))])
def average_int(c, shape, blksz, stp, dt):
    """averages of integer blocks: no overflow, no truncation"""
    A = c.mod('sporco.array')
    pos = blocks(shape, blksz, stp)
    v = typed(c, 'v', blksz + (len(pos),), dt)
    c.keep(v)
    y = A.average_blocks(v, shape, stp)
    c.unchanged()
    w = v.astype('float64')
    nb = len(blksz)
    cells = {}
    for n, p in enumerate(pos):
        for i in spec.ndi(blksz):
            j = tuple(p[k] + (i[k] if k < nb else 0) for k in range(len(shape)))
            cells.setdefault(j, []).append(w[i + (n,)])
    for j in cells:
        c.eq('mean', y[j] * len(cells[j]), sum(cells[j]))
