"""P18: signal processing operators, image metrics, interpolation and
regression functions equal their documented definitions."""
from sx.run import Registry
from sx import csc, spec
from sx.swap import swapped
reg = Registry()
MODULES = ['sporco.signal', 'sporco.metric', 'sporco.interp']
BOUNDS = ('arrays of at most 36 samples in up to 4 dimensions (all axes, even and odd sizes, real and complex values); fixed '
          'regression matrices of up to 4 rows and 2 columns with arbitrary right hand sides and competitors; images of 4x4 '
          'and 4x6 for demosaicing; logarithm and exponential uninterpreted (with monotonicity)')

SHAPES = [(1,), (2,), (3,), (4,), (2, 3), (1, 3), (3, 1), (2, 2, 2), (1, 2, 3)]


def lin(x, axis):
    return [tuple(q) for q in spec.ndi(x)]


def at(i, axis, v):
    j = list(i)
    j[axis] = v
    return tuple(j)


@reg.case('grad', [dict(shape=s, axis=a, zp=z, cx=cx) for s in SHAPES for a in range(-len(s), len(s)) for z in (0, 1)
                   for cx in ((0, 1) if len(s) == 2 else (0,))])
def grad(c, shape, axis, zp, cx):
    """difference operators equal the documented matrices and are adjoint"""
    np = c.np
    G = c.mod('sporco.signal')
    mk = c.cplx if cx else c.real
    x = mk('x', shape)
    nd = len(shape)
    ax = axis % nd
    n = shape[ax]
    osh = list(shape)
    if zp:
        osh[ax] = n + 1
    y = mk('y', tuple(osh))
    c.keep(x, y)
    g = G.grad(x, axis, zero_pad=bool(zp))
    gt = G.gradT(y, axis, zero_pad=bool(zp))
    c.unchanged()
    # documented matrix
    m = osh[ax]
    M = [[0] * n for _ in range(m)]
    for i in range(m):
        if zp:
            if i < n:
                M[i][i] += 1
            if i > 0:
                M[i][i - 1] -= 1
        elif i < n - 1:
            M[i][i] -= 1
            M[i][i + 1] += 1
    w = np.zeros(tuple(osh), dtype=x.dtype)
    for i in spec.ndi(osh):
        acc = 0
        for k in range(n):
            acc = acc + M[i[ax]][k] * x[at(i, ax, k)]
        w[i] = acc
    c.eq('gradient', g, w)
    w = np.zeros(shape, dtype=y.dtype)
    for i in spec.ndi(shape):
        acc = 0
        for k in range(m):
            acc = acc + M[k][i[ax]] * y[at(i, ax, k)]
        w[i] = acc
    c.eq('adjoint', gt, w)


@reg.case('gradfilt', [dict(nd=nd, axes=a, shp=s, cx=cx) for nd, a, s in (
    (1, (0,), (4,)), (2, (0, 1), (2, 3)), (3, (0, 1), (3, 4)), (3, (1, 2), (2, 3)), (3, (0, 2), (2, 2)), (4, (0, 2), (4, 2)),
    (3, (0, 1, 2), (2, 2, 3)), (2, (1,), (3,)), (3, (2,), (4,)), (3, (1,), (2,))) for cx in (0, 1)])
def gradfilt(c, nd, axes, shp, cx):
    """frequency responses of the gradient filters act as circular differences"""
    np = c.np
    G = c.mod('sporco.signal')
    F = c.mod('sporco.fft')
    full = [2] * nd
    for k, a in enumerate(axes):
        full[a] = shp[k]
    x = (c.cplx if cx else c.real)('x', tuple(full))
    Gf, GG = G.gradient_filters(nd, axes, shp, dtype=np.complex128 if cx else np.float64)
    if not cx:
        D = G.gradient_filters(nd, axes, shp)
        c.true('default type', D[0].dtype == np.dtype('complex64'))
        c.eq('default values', D[0], Gf, tol=1e-5)
    c.true('number of filters', Gf.shape[-1] == len(axes))
    c.true('dimensions', Gf.ndim == nd + 1 and GG.ndim == nd)
    fwd = (lambda v: F.fftn(v, shp, axes)) if cx else (lambda v: F.rfftn(v, shp, axes))
    inv = (lambda v: F.ifftn(v, shp, axes)) if cx else (lambda v: F.irfftn(v, shp, axes))
    xf = fwd(x)
    want = 0
    for k, a in enumerate(axes):
        d = x - np.roll(x, 1, axis=a)
        c.eq('difference %d' % k, inv(Gf[..., k] * xf), d)
        want = want + d - np.roll(d, -1, axis=a)
    c.eq('squared magnitude', inv(GG * xf), want)


def circ(np, z, axes):
    out = 0
    for a in axes:
        d = z - np.roll(z, 1, axis=a)
        out = out + d - np.roll(d, -1, axis=a)
    return out


@reg.case('tikhonov', [dict(shape=s, lam=l, npd=n, cx=cx) for s, n, cx in (
    ((2, 3), 0, 0), ((4, 2), 0, 0), ((2, 2, 2), 0, 0), ((2, 3), 0, 1), ((2, 1), 1, 0), ((2, 2), 1, 0),
    ((1, 2), 1, 0), ((2, 2), 1, 1), ((2, 1, 2), 1, 0), ((4, 4), 0, 0), ((2, 2, 1, 2), 0, 0)) for l in (0.5, 3.0)], limit=120)
def tikhonov(c, shape, lam, npd, cx):
    """low pass component minimises the documented functional on the padded image"""
    np = c.np
    G = c.mod('sporco.signal')
    s = (c.cplx if cx else c.real)('s', shape)
    c.keep(s)
    lo, hi = G.tikhonov_filter(s, lam, npd=npd)
    c.unchanged()
    c.eq('sum of components', lo + hi, s)
    c.true('shape', lo.shape == shape)
    if npd == 0:
        c.eq('normal equations', lo + lam * circ(np, lo, (0, 1)), s)
    else:
        sp = np.pad(s, ((npd, npd),) * 2 + ((0, 0),) * (len(shape) - 2), 'symmetric')
        l2, h2 = G.tikhonov_filter(sp, lam, npd=0)
        c.eq('normal equations', l2 + lam * circ(np, l2, (0, 1)), sp)
        c.eq('crop', lo, l2[npd:-npd, npd:-npd])


@reg.case('gaussian', [dict(shape=s, sd=sd) for s in ((3,), (4,), (3, 3), (2, 3), (5, 2), 4, (2, 2, 2), (1, 3)) for sd in (1.0, 2.0)])
def gaussian(c, shape, sd):
    """normalised Gaussian"""
    np = c.np
    G = c.mod('sporco.signal')
    g = G.gaussian(shape, sd)
    shp = (shape,) if isinstance(shape, int) else shape
    c.true('shape', g.shape == shp)
    c.eq('unit sum', np.sum(g), 1.0)
    e = 1.0
    for k, n in enumerate(shp):
        x = np.array([-3.0 + 6.0 * i / (n - 1) if n > 1 else -3.0 for i in range(n)])
        e = e * np.exp(-(x ** 2) / (2.0 * sd ** 2)).reshape((1,) * k + (n,) + (1,) * (len(shp) - k - 1))
    c.eq('ratio', g * e.ravel()[0], e * g.ravel()[0])


@reg.case('lcn', [dict(shape=s, n=1, cv=cv) for s in ((4, 1), (1, 4), (2, 2), (4, 1, 2), (2, 1, 2), (2, 2, 1)) for cv in (0.25, None)],
          limit=150)
def lcn(c, shape, n, cv):
    """local contrast normalisation"""
    np = c.np
    G = c.mod('sporco.signal')
    s = c.real('s', shape)
    c.floatfn()
    c.keep(s)
    scn, smn, snrm = G.local_contrast_normalise(s, n=n, c=cv)
    c.unchanged()
    if cv is None:
        c.assume(np.all(snrm > 0))
    c.eq('reconstruction', scn * snrm + smn, s)
    c.true('shape', scn.shape == shape)
    g = G.gaussian((3, 3), 1.0)
    sp = np.pad(s, ((n, n), (n, n)) + ((0, 0),) * (len(shape) - 2), 'symmetric')
    H, W = shape[:2]
    m = {}
    for i in range(H):
        for j in range(W):
            acc = 0
            for u in range(3):
                for v in range(3):
                    acc = acc + g[u, v] * sp[i + u, j + v]
            m[i, j] = acc
            c.eq('local mean', smn[i, j], acc)
    if cv is None:
        return
    # pixels the window of which is inside the image (or constant outside)
    rows = range(1, H - 1) if H > 1 else range(1)
    cols = range(1, W - 1) if W > 1 else range(1)
    for i in rows:
        for j in cols:
            acc = 0
            for u in range(3):
                for v in range(3):
                    p = (i + u - 1 if H > 1 else 0, j + v - 1 if W > 1 else 0)
                    acc = acc + g[u, v] * (s[p] - m[p]) ** 2
            c.eq('local norm', snrm[i, j], np.maximum(cv, np.sqrt(np.clip(acc, 0.0, np.inf))))


@reg.case('rgb2gray', [dict(shape=s, dt=d) for s in ((2, 2, 3), (1, 2, 3), (2, 2, 3, 2), (2, 1, 3, 3), (1, 1, 3, 1), (2, 3, 3, 3))
                       for d in ('float64', 'float32', 'uint8', 'int64')])
def rgb2gray(c, shape, dt):
    """weighted sum of the colour channels for every image"""
    np = c.np
    G = c.mod('sporco.signal')
    if dt.startswith('float'):
        x = c.real('x', shape, dtype=dt)
    else:
        x = c.real('int:x', shape, lo=0, hi=255, dtype=dt)
    c.keep(x)
    g = G.rgb2gray(x)
    c.unchanged()
    c.eq('luminance', g, 0.299 * x[:, :, 0] + 0.587 * x[:, :, 1] + 0.114 * x[:, :, 2], tol=1e-3)


class Draw:
    """replaces the uniform generator by arbitrary values"""
    def __init__(self, c, edge=()):
        import numpy.random as R
        self.R, self.c, self.n = R, c, 0

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.c.real('u%d' % self.n, size, lo=-1.0, hi=1.0)
        self.n += 1
        return low + (high - low) * (u + 1.0) / 2.0

    def __enter__(self):
        self.old = self.R.uniform
        self.R.uniform = self.uniform
        return self

    def __exit__(self, *a):
        self.R.uniform = self.old


@reg.case('spnoise', [dict(shape=s, frc=f, v=v) for s in ((3,), (2, 2), (1, 2, 2)) for f in (0.0, 0.25, 0.5, 1.0) for v in ((), (0.25, 0.75))])
def spnoise(c, shape, frc, v):
    """each pixel is kept, or replaced by the low or high value with equal probability"""
    np = c.np
    G = c.mod('sporco.signal')
    s = c.real('s', shape)
    c.keep(s)
    with Draw(c):
        r = G.spnoise(s, frc, *v)
    c.unchanged()
    lo, hi = v or (0.0, 1.0)
    u = c.real('u0', shape, lo=-1.0, hi=1.0)
    for i in spec.ndi(shape):
        # the draw is uniform on [-1, 1]
        c.implies('kept', (u[i] > frc - 1) & (u[i] < 1 - frc), r[i] == s[i])
        c.implies('low', u[i] < frc - 1, r[i] == lo)
        c.implies('high', u[i] > 1 - frc, r[i] == hi)
        c.true('range', (r[i] == s[i]) | (r[i] == lo) | (r[i] == hi))


@reg.case('rndmask', [dict(shape=s, frc=f, dt=d) for s in ((3,), (2, 2)) for f in (0.0, 0.25, 0.5, 1.0)
                      for d in (None, 'float32', 'float64', 'uint8', 'int64', 'bool')])
def rndmask(c, shape, frc, dt):
    """binary masks with the requested fraction of zeros"""
    np = c.np
    G = c.mod('sporco.signal')
    with Draw(c):
        r = G.rndmask(shape, frc, dtype=None if dt is None else np.dtype(dt))
    c.true('type', r.dtype == np.dtype(dt or 'float64'))
    u = c.real('u0', shape, lo=-1.0, hi=1.0)
    for i in spec.ndi(shape):
        v = r[i] * 1.0
        c.true('binary', (v == 0) | (v == 1))
        c.implies('zero', np.abs(u[i]) < frc, v == 0)
        c.implies('one', np.abs(u[i]) > frc, v == 1)


# ------------------------------------------------------------------ metrics

VK = [dict(cx=0, dt='float64'), dict(cx=1, dt='complex128'), dict(cx=0, dt='uint8'), dict(cx=0, dt='int16'), dict(cx=0, dt='float32'),
      dict(cx=0, dt='int8')]
RNG = {'uint8': (0, 255), 'int8': (-128, 127), 'int16': (-32768, 32767)}


def img(c, name, shape, cx, dt):
    if cx:
        return c.cplx(name, shape)
    lo, hi = RNG.get(dt, (None, None))
    return c.real('int:' + name if lo is not None else name, shape, lo=lo, hi=hi, dtype=dt)


def dbl(c, x, cx):
    return x.astype('complex128' if cx else 'float64')


def smse(c, a, b, cx):
    d = dbl(c, a, cx) - dbl(c, b, cx)
    return spec.nrm2(c.np, d) / d.size


def svar(c, a, cx):
    np = c.np
    a = dbl(c, a, cx)
    m = np.sum(a) / a.size
    return spec.nrm2(np, a - m) / a.size


def db(np, a, b):
    return 10.0 * np.log10(a / b)


@reg.case('error', [dict(shape=s, **k) for s in ((3,), (2, 2), (1, 2, 2)) for k in VK])
def error(c, shape, cx, dt):
    """mean absolute and squared error"""
    np = c.np
    M = c.mod('sporco.metric')
    a, b = img(c, 'a', shape, cx, dt), img(c, 'b', shape, cx, dt)
    c.keep(a, b)
    m1, m2 = M.mae(a, b), M.mse(a, b)
    c.unchanged()
    d = dbl(c, a, cx) - dbl(c, b, cx)
    c.eq('mae', m1, np.sum(np.sqrt(spec.abs2(np, d))) / d.size, tol=1e-5)
    c.eq('mse', m2, spec.nrm2(np, d) / d.size, tol=1e-5)


@reg.case('snr', [dict(shape=s, m=m, **k) for s in ((3,), (2, 2)) for k in VK for m in ('snr', 'psnr', 'psnrr', 'isnr', 'bsnr')
                  if not (k['cx'] and m == 'psnr') and (m, k['dt']) != ('psnrr', 'int16')])
def snr(c, shape, m, cx, dt):
    """signal to noise ratios"""
    np = c.np
    M = c.mod('sporco.metric')
    a, b, d = (img(c, n, shape, cx, dt) for n in 'abd')
    c.keep(a, b, d)
    c.assume(smse(c, a, b, cx) >= 0.25)
    c.assume(svar(c, a, cx) >= 0.25)
    if m == 'snr':
        r, w = M.snr(a, b), db(np, svar(c, a, cx), smse(c, a, b, cx))
    elif m == 'psnr':
        f = dbl(c, a, cx)
        R = f.max() - f.min()
        r, w = M.psnr(a, b), db(np, R * R, smse(c, a, b, cx))
    elif m == 'psnrr':
        r, w = M.psnr(a, b, rng=1048576.0), db(np, 2.0 ** 40, smse(c, a, b, cx))
    elif m == 'isnr':
        c.assume(smse(c, a, d, cx) >= 0.25)
        r, w = M.isnr(a, b, d), db(np, smse(c, a, b, cx), smse(c, a, d, cx))
    else:
        n = dbl(c, b, cx) - dbl(c, a, cx)
        c.assume(svar(c, n, cx) >= 0.25)
        r, w = M.bsnr(a, b), db(np, svar(c, a, cx), svar(c, n, cx))
    c.unchanged()
    c.eq('ratio', r, w, tol=1e-4)


@reg.case('equal', [dict(m=m) for m in ('snr', 'psnr', 'isnr', 'bsnr')])
def equal(c, m):
    """an exact reconstruction has infinite signal to noise ratio"""
    np = c.np
    M = c.mod('sporco.metric')
    a, b = c.real('a', (2, 2)), c.real('b', (2, 2))
    c.assume(a[0, 0] > a[0, 1])
    c.assume(b[0, 0] > a[0, 0])
    r = {'snr': lambda: M.snr(a, a), 'psnr': lambda: M.psnr(a, a.copy()), 'isnr': lambda: M.isnr(a, b, a),
         'bsnr': lambda: M.bsnr(a, a)}[m]()
    c.true('infinite', np.isinf(r) & (r > 0))


@reg.case('pamse', [dict(shape=s, rs=r, dt=d) for s in ((2, 2), (3, 2)) for r in (0, 1) for d in ('float64', 'uint8')])
def pamse(c, shape, rs, dt):
    """mean square of the smoothed error"""
    np = c.np
    M = c.mod('sporco.metric')
    a, b = img(c, 'a', shape, 0, dt), img(c, 'b', shape, 0, dt)
    c.keep(a, b)
    if rs:
        c.assume(a.max() >= 1)
    r = M.pamse(a, b, rescale=bool(rs))
    c.unchanged()
    # smoothing by a Gaussian of standard deviation 0.8
    e = c.lib('scipy.ndimage').gaussian_filter(dbl(c, a, 0) - dbl(c, b, 0), 0.8)
    v = spec.nrm2(np, e) / e.size
    if rs:
        v = v * 255.0 ** 2 / dbl(c, a, 0).max() ** 2
    c.eq('score', r, v, tol=1e-6)


def sym2(np, a, k, off):
    """convolution with symmetric extension; k indexes offsets from off"""
    H, W = a.shape
    p = np.pad(a, ((2, 2), (2, 2)), 'symmetric')
    out = 0
    for u in range(len(k)):
        for v in range(len(k[0])):
            if k[u][v]:
                out = out + k[u][v] * p[2 + off - u:2 + off - u + H, 2 + off - v:2 + off - v + W]
    return out


@reg.case('gmsd', [dict(shape=s, rs=r, dt=d, fix=fx) for s, fx in (((2, 2), 0), ((4, 2), 1), ((3, 4), 1)) for r in (0, 1) for d in ('float64', 'uint8')],
          limit=120)
def gmsd(c, shape, rs, dt, fix):
    """gradient magnitude similarity deviation"""
    np = c.np
    M = c.mod('sporco.metric')
    a, b = img(c, 'a', shape, 0, dt), img(c, 'b', shape, 0, dt)
    if fix:
        a = c.const(np.round(abs(csc.vals(shape, 3)) * 8) * 16, dtype=dt)
    elif rs:
        c.assume(a.max() >= 1)
    c.keep(a, b)
    sc, q = M.gmsd(a, b, rescale=bool(rs), returnMap=True)
    s1 = M.gmsd(a, b, rescale=bool(rs))
    c.unchanged()
    af, bf = dbl(c, a, 0), dbl(c, b, 0)
    mx = a.max()
    if rs:
        af, bf = 255.0 / mx * af, 255.0 / mx * bf
    dx = [[1.0 / 3, 0, -1.0 / 3]] * 3
    dy = [[1.0 / 3] * 3, [0] * 3, [-1.0 / 3] * 3]
    mags = []
    for f in (af, bf):
        y = sym2(np, f, [[0.25, 0.25], [0.25, 0.25]], 0)[::2, ::2]
        mags.append(sym2(np, y, dx, 1) ** 2 + sym2(np, y, dy, 1) ** 2)
    w = (2 * np.sqrt(mags[0]) * np.sqrt(mags[1]) + 170.0) / (mags[0] + mags[1] + 170.0)
    c.eq('quality map', q, w, tol=1e-5)
    mean = np.sum(q) / q.size
    c.eq('score', sc ** 2, np.sum((q - mean) ** 2) / q.size, tol=1e-6)
    c.le('score sign', 0, sc)
    c.eq('score alone', s1, sc)


# ------------------------------------------------- interpolation/regression

def bayer(i, j):
    """colour index at a pixel of the documented pattern"""
    if i % 2 == 0 and j % 2 == 0:
        return 2
    if i % 2 == 1 and j % 2 == 1:
        return 0
    return 1


@reg.case('demosaic', [dict(shape=s) for s in ((4, 4), (4, 6), (6, 4), (5, 5), (4, 5), (5, 4))])
def demosaic(c, shape):
    """known samples are preserved, others are bilinear interpolations"""
    np = c.np
    I = c.mod('sporco.interp')
    x = c.real('x', shape)
    c.keep(x)
    r = I.bilinear_demosaic(x)
    c.unchanged()
    H, W = shape
    c.true('shape', r.shape == shape + (3,))
    for i in range(H):
        for j in range(W):
            c.eq('sample %s' % 'rgb'[bayer(i, j)], r[i, j, bayer(i, j)], x[i, j])
            # red and blue: bilinear from the regular grid, nearest grid line
            # outside of it
            for ch, o in ((0, 1), (2, 0)):
                def near(p, n):
                    if p % 2 == o:
                        return [p, p]
                    lo, hi = p - 1, p + 1
                    return [lo if lo >= 0 else hi, hi if hi < n else lo]
                v = sum(x[p, q] for p in near(i, H) for q in near(j, W)) / 4.0
                c.eq('red' if ch == 0 else 'blue', r[i, j, ch], v)
            if bayer(i, j) != 1:
                nb = [(i + d, j) for d in (-1, 1) if 0 <= i + d < H], [(i, j + d) for d in (-1, 1) if 0 <= j + d < W]
                pts = nb[0] + nb[1]
                v = r[i, j, 1]
                mx = mn = x[pts[0]]
                for p in pts[1:]:
                    mx = np.maximum(mx, x[p])
                    mn = np.minimum(mn, x[p])
                c.le('green below neighbours', v, mx)
                c.le('green above neighbours', mn, v)


@reg.case('demosaic_affine', [dict(shape=s) for s in ((4, 4), (4, 6))])
def demosaic_affine(c, shape):
    """affine colour fields are reproduced in the interior"""
    np = c.np
    I = c.mod('sporco.interp')
    H, W = shape
    cf = [[c.real('k%d%d' % (a, b)) for b in range(3)] for a in range(3)]

    def f(ch, i, j):
        return cf[ch][0] + cf[ch][1] * i + cf[ch][2] * j
    x = np.stack([np.stack([f(bayer(i, j), i, j) for j in range(W)]) for i in range(H)])
    r = I.bilinear_demosaic(x)
    for i in range(1, H - 1):
        for j in range(1, W - 1):
            for ch in range(3):
                c.eq('affine', r[i, j, ch], f(ch, i, j))


AM = [((1.0,), (1.0,), (1.0,)), ((1.0,), (-2.0,), (0.5,)), ((1.0, 0.0), (1.0, 1.0), (1.0, 3.0)), ((2.0,), (0.0,))]


@reg.case('regress', [dict(f=f, k=k) for f in ('lstabsdev', 'lstmaxdev') for k in range(len(AM))], limit=120)
def regress(c, f, k):
    """no other vector has a smaller deviation"""
    np = c.np
    I = c.mod('sporco.interp')
    A = c.const(AM[k])
    b = c.real('b', (len(AM[k]),))
    w = c.real('w', (len(AM[k][0]),))
    c.keep(A, b)
    x = getattr(I, f)(A, b)
    c.unchanged()
    c.true('shape', x.shape == w.shape)
    rx, rw = np.abs(A.dot(x) - b), np.abs(A.dot(w) - b)
    if f == 'lstabsdev':
        c.le('optimal', np.sum(rx), np.sum(rw))
    else:
        c.le('optimal', rx.max(), rw.max())


@reg.case('points', [dict(N=n, z=z) for n in range(1, 8) for z in (0, 1)])
def points(c, N, z):
    """evenly spaced points in (-1, 1) around zero"""
    np = c.np
    I = c.mod('sporco.interp')
    p = I.interpolation_points(N, include_zero=bool(z))
    c.true('count', p.shape == (N,))
    st = 1.0 / N if z else 1.0 / (N + 1)
    q = list(p)
    if not z:
        neg = [v for v in q if float(v) < 0]
        q = neg + [0.0] + q[len(neg):]
    for i in range(len(q) - 1):
        c.true('spacing', abs(float(q[i + 1]) - float(q[i]) - st) < 1e-12)
    c.true('zero included', any(abs(float(v)) < 1e-12 for v in q))
    c.true('balanced', abs(sum(1 for v in q if float(v) > 1e-12) - sum(1 for v in q if float(v) < -1e-12)) <= 1)


@reg.case('kernel', [dict(a=a) for a in (1, 2, 3)])
def kernel(c, a):
    """Lanczos kernel at multiples of 1/6 and at arbitrary points outside"""
    np = c.np
    I = c.mod('sporco.interp')
    y = c.real('y', (2,), nonneg=True)
    x = np.stack([y[0] + a, -a - y[1]])
    c.eq('support', I.lanczos_kernel(x, a), [0.0, 0.0])
    for k in range(-6 * a, 6 * a + 1):
        t = k / 6.0
        v = np.sinc(np.array([t])) * np.sinc(np.array([t]) / a) if abs(t) < a else [0.0]
        c.eq('value', I.lanczos_kernel(np.array([t]), a), v)


@reg.case('filters', [dict(sz=s, a=a, ca=k) for s in (2, (3,), (2, 2), (1, 3), ((0.25, -0.5), 2), (2, (0.0, 1.0)), (2, 1, 2)) for a in (1, 2, 3)
                      for k in (0, 1)])
def filters(c, sz, a, ca):
    """filters are tensor products of normalised kernels"""
    np = c.np
    I = c.mod('sporco.interp')
    h = I.lanczos_filters(sz, a, collapse_axes=bool(ca))
    dims = (sz,) if isinstance(sz, int) else sz
    pts = [I.interpolation_points(d) if isinstance(d, int) else np.array(d) for d in dims]
    one = []
    for p in pts:
        cols = []
        for v in p:
            k = I.lanczos_kernel(np.array([float(q + v) for q in range(-a, a + 1)]), a)
            cols.append(k / np.sum(k))
        one.append(cols)
    n = len(dims)
    shp = (2 * a + 1,) * n + tuple(len(p) for p in pts)
    want = np.zeros(shp)
    for i in spec.ndi(shp):
        v = 1.0
        for k in range(n):
            v = v * one[k][i[n + k]][i[k]]
        want[i] = v
    if ca:
        want = want.reshape((2 * a + 1,) * n + (-1,))
    c.eq('filters', h, want)
    c.eq('unit sum', np.sum(h.reshape((2 * a + 1) ** n, -1), axis=0), np.ones((int(np.prod(shp[n:])),)))


@reg.case('filters_check', [dict()])
def filters_check(c):
    """interpolation points outside [-1, 1] are rejected"""
    np = c.np
    I = c.mod('sporco.interp')
    t = c.real('t')
    if c.branch((t >= -1.0) & (t <= 1.0)):
        return
    c.raises('out of range', lambda: I.lanczos_filters((np.stack([t, t]),), 2), ValueError)
    c.raises('not one dimensional', lambda: I.lanczos_filters((((0.0, 0.5), (0.25, 0.5)),), 2), ValueError)


@reg.case('complex_randn', [dict(shape=s) for s in ((3,), (2, 2), (1, 2, 2))])
def complex_randn(c, shape):
    """real and imaginary parts are two separate draws of the given shape"""
    G = c.mod('sporco.signal')
    sh = []

    def randn(*a):
        sh.append(tuple(a))
        return c.real('v%d' % (len(sh) - 1), tuple(a))
    with swapped(G, ('numpy.random', 'randn', randn)):
        r = G.complex_randn(*shape)
    c.true('draws', sh == [shape, shape])
    c.eq('value', r, c.real('v0', shape) + 1j * c.real('v1', shape))


@reg.case('integer', [dict(fn=f, dt=d) for f in ('grad0', 'grad1', 'gradp', 'gradT0', 'gradT1', 'gradTp', 'tik') for d in ('uint8', 'int16')])
def integer(c, fn, dt):
    """integer images give the values that the same numbers give in floating point"""
    G = c.mod('sporco.signal')
    x = c.real('int:x', (2, 2) if fn == 'tik' else (2, 3), lo=0 if dt == 'uint8' else -30000, hi=200 if dt == 'uint8' else 30000, dtype=dt)
    F = {'grad0': lambda z: G.grad(z, 0), 'grad1': lambda z: G.grad(z, 1), 'gradp': lambda z: G.grad(z, 1, zero_pad=True),
         'gradT0': lambda z: G.gradT(z, 0), 'gradT1': lambda z: G.gradT(z, 1), 'gradTp': lambda z: G.gradT(z, 1, zero_pad=True),
         'tik': lambda z: G.tikhonov_filter(z, 5.0, npd=1)}[fn]
    c.keep(x)
    y = F(x)
    c.unchanged()
    r = F(x.astype('float64'))
    if fn == 'tik':
        c.eq('lowpass', y[0], r[0])
        c.eq('highpass', y[1], r[1])
    else:
        c.eq('value', y, r)
