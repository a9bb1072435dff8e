"""P01: proximal operators, projections and norms."""
from sx.run import Registry
from sx.swap import without
reg = Registry()
MODULES = ['sporco.prox', 'sporco.array']
BOUNDS = ('arrays of 1-6 elements in 1-4 dimensions, every axis choice listed; '
          'all real values of the array, threshold and radius')


def groups(shape, axis, np):
    """Index groups (lists of tuples) reduced together by axis."""
    nd = len(shape)
    if axis is None:
        ax = tuple(range(nd))
    elif isinstance(axis, int):
        ax = (axis % nd,)
    else:
        ax = tuple(a % nd for a in axis)
    out = {}
    for i in np.ndindex(*shape):
        out.setdefault(tuple(x for k, x in enumerate(i) if k not in ax), []).append(i)
    return out, ax


def kshape(shape, ax):
    return tuple(1 if k in ax else n for k, n in enumerate(shape))


def inp(c, name, shape, cx, **k):
    return c.cplx(name, shape, **k) if cx else c.real(name, shape, **k)


def ab2(np, x):
    return np.real(x) ** 2 + np.imag(x) ** 2


# ------------------------------------------------------------------ l1 / l0

@reg.case('prox_l1', [dict(shape=(3,)), dict(shape=(2, 2)), dict(shape=(1,)), dict(shape=(2, 2), ne=0), dict(shape=(1,), ne=0)])
def prox_l1(c, shape, ne=1):
    p = c.mod('sporco.prox')
    v = c.real('v', shape)
    a = c.real('alpha', nonneg=True)
    c.keep(v)
    with without(c, 'have_numexpr', 'sporco.prox._lp', on=not ne):
        x = p.prox_l1(v, a)
    c.unchanged()
    np = c.np
    c.true('shape', np.shape(x) == tuple(shape))
    for i in range(int(np.prod(shape))):
        xi, vi = x.ravel()[i], v.ravel()[i]
        # optimality of min_x alpha |x| + 1/2 (x - v)^2
        c.implies('pos', xi > 0, xi - vi + a == 0) if c.sym else \
            c.implies('pos', xi > 0, abs(xi - vi + a) < 1e-6)
        c.implies('neg', xi < 0, xi - vi - a == 0) if c.sym else \
            c.implies('neg', xi < 0, abs(xi - vi - a) < 1e-6)
        c.implies('zero', xi == 0, abs(vi) <= a + (0 if c.sym else 1e-6))
    c.eq('soft', x, np.sign(v) * np.maximum(np.abs(v) - a, 0))


@reg.case('prox_l1_array_alpha', [dict(shape=(3,)), dict(shape=(2, 2))])
def prox_l1_arr(c, shape):
    p = c.mod('sporco.prox')
    v = c.real('v', shape)
    a = c.real('alpha', shape, nonneg=True)
    np = c.np
    c.eq('soft', p.prox_l1(v, a), np.sign(v) * np.maximum(np.abs(v) - a, 0))
    w = c.real('w', (shape[-1],), nonneg=True)
    b = c.real('beta', nonneg=True)
    c.eq('bcast', p.prox_l1(v, b * w), np.sign(v) * np.maximum(np.abs(v) - b * w, 0))


@reg.case('prox_l1_complex', [dict(shape=(2,)), dict(shape=(1, 1))])
def prox_l1_c(c, shape):
    p = c.mod('sporco.prox')
    v = c.cplx('v', shape)
    a = c.real('alpha', nonneg=True)
    np = c.np
    c.keep(v)
    x = p.prox_l1(v, a)
    c.unchanged()
    m = np.abs(v)
    # x = v * max(0, 1 - a/|v|):  x |v| = v max(|v| - a, 0), zero at zero
    c.eq('soft', x * m, v * np.maximum(m - a, 0))
    c.eq('mod', np.abs(x), np.maximum(m - a, 0))


@reg.case('prox_l0', [dict(shape=(2,)), dict(shape=(1, 2))])
def prox_l0(c, shape):
    p = c.mod('sporco.prox')
    v = c.real('v', shape)
    a = c.real('alpha', nonneg=True)
    c.keep(v)
    x = p.prox_l0(v, a)
    c.unchanged()
    np = c.np
    z = c.real('z', shape)
    c.true('shape', np.shape(x) == tuple(shape))
    for i in np.ndindex(*shape):
        obj = lambda t: a * s_nz(c, t) + (t - v[i]) ** 2 / 2
        c.le('opt', obj(x[i]), obj(z[i]))


def s_nz(c, t):
    return c.np.where(t != 0, 1.0, 0.0)


@reg.case('norms', [dict(shape=(4,), axis=None, cx=0), dict(shape=(2, 2), axis=0, cx=0),
                    dict(shape=(2, 3), axis=-1, cx=0), dict(shape=(2, 1, 2), axis=(0, 2), cx=0),
                    dict(shape=(2, 2), axis=1, cx=1), dict(shape=(2,), axis=None, cx=1),
                    dict(shape=(2, 2, 2), axis=(-1, 0), cx=0)])
def norms(c, shape, axis, cx):
    p = c.mod('sporco.prox')
    np = c.np
    x = inp(c, 'x', shape, cx)
    g, ax = groups(shape, axis, np)
    ks = kshape(shape, ax)
    l1 = [sum(abs(x[i]) for i in idx) for idx in g.values()]
    l22 = [sum(ab2(np, x[i]) for i in idx) for idx in g.values()]
    l0 = [sum(s_nz(c, x[i]) for i in idx) for idx in g.values()]

    def pack(v):
        return v[0] if len(v) == 1 else np.array(v).reshape(ks)
    c.eq('l1', p.norm_l1(x, axis=axis), pack(l1))
    c.eq('2l2', p.norm_2l2(x, axis=axis), pack(l22))
    c.eq('l2', p.norm_l2(x, axis=axis), np.sqrt(pack(l22)))
    c.eq('l0', np.asarray(p.norm_l0(x, axis=axis)) * 1.0, np.asarray(pack(l0)) * 1.0)
    c.eq('l21', p.norm_l21(x, axis=axis), sum(np.sqrt(t) for t in l22))
    b = c.real('beta')
    c.eq('dl1l2', p.norm_dl1l2(x, b, axis=axis),
         pack([s - b * np.sqrt(t) for s, t in zip(l1, l22)]))
    e = c.real('eps', nonneg=True)
    c.eq('l0eps', np.asarray(p.norm_l0(x, axis=axis, eps=e)) * 1.0,
         np.asarray(pack([sum(np.where(abs(x[i]) > e, 1.0, 0.0) for i in idx)
                          for idx in g.values()])) * 1.0)


# ------------------------------------------------------------------------ l2

L2 = [dict(shape=(3,), axis=None, cx=0), dict(shape=(2, 2), axis=0, cx=0),
      dict(shape=(2, 2), axis=-1, cx=0), dict(shape=(2, 2), axis=(0, 1), cx=0),
      dict(shape=(2, 1, 2), axis=(0, 2), cx=0), dict(shape=(2,), axis=None, cx=1),
      dict(shape=(2, 1), axis=0, cx=1), dict(shape=(1, 2, 2), axis=(-1,), cx=0)]


@reg.case('prox_l2', L2)
def prox_l2(c, shape, axis, cx):
    p = c.mod('sporco.prox')
    np = c.np
    v = inp(c, 'v', shape, cx)
    a = c.real('alpha', nonneg=True)
    c.keep(v)
    x = p.prox_l2(v, a, axis=axis)
    c.unchanged()
    c.true('shape', np.shape(x) == tuple(shape))
    g, ax = groups(shape, axis, np)
    for idx in g.values():
        n = np.sqrt(sum(ab2(np, v[i]) for i in idx))
        for i in idx:
            # x = max(0, 1 - a/n) v
            c.eq('shrink', x[i] * n, np.maximum(n - a, 0) * v[i])
            c.implies('zero', n == 0, x[i] == 0)


@reg.case('proj_l2', L2)
def proj_l2(c, shape, axis, cx):
    p = c.mod('sporco.prox')
    np = c.np
    v = inp(c, 'v', shape, cx)
    r = c.real('gamma', nonneg=True)
    c.keep(v)
    x = p.proj_l2(v, r, axis=axis)
    c.unchanged()
    c.true('shape', np.shape(x) == tuple(shape))
    g, ax = groups(shape, axis, np)
    for idx in g.values():
        n2 = sum(ab2(np, v[i]) for i in idx)
        n = np.sqrt(n2)
        c.le('feasible', sum(ab2(np, x[i]) for i in idx), r * r)
        for i in idx:
            c.eq('nearest', x[i] * np.maximum(n, r), v[i] * r)


@reg.case('prox_sl1l2', [dict(shape=(2, 2), axis=-1), dict(shape=(2,), axis=None),
                         dict(shape=(2, 2), axis=0)])
def prox_sl1l2(c, shape, axis):
    """Sparse group threshold: prox_l2 after prox_l1, decided from the
    optimality conditions of alpha ||x||_1 + beta ||x||_2."""
    p = c.mod('sporco.prox')
    np = c.np
    v = c.real('v', shape)
    a = c.real('alpha', nonneg=True)
    b = c.real('beta', nonneg=True)
    c.keep(v)
    x = p.prox_sl1l2(v, a, b, axis)
    c.unchanged()
    s = np.sign(v) * np.maximum(np.abs(v) - a, 0)
    g, ax = groups(shape, axis, np)
    for idx in g.values():
        n = np.sqrt(sum(s[i] ** 2 for i in idx))
        for i in idx:
            c.eq('group', x[i] * n, np.maximum(n - b, 0) * s[i])
            c.implies('zero', n == 0, x[i] == 0)


# ------------------------------------------------------------------ l1 ball

@reg.case('proj_l1', [dict(shape=(2,), axis=None, method=None, cx=0),
                      dict(shape=(3,), axis=None, method='scalarroot', cx=0),
                      dict(shape=(2,), axis=None, method='sortcumsum', cx=0),
                      dict(shape=(3,), axis=0, method='sortcumsum', cx=0),
                      dict(shape=(1, 3), axis=None, method='sortcumsum', cx=0),
                      dict(shape=(2, 2), axis=0, method=None, cx=0),
                      dict(shape=(2, 2), axis=-1, method=None, cx=0),
                      dict(shape=(1, 3), axis=1, method=None, cx=0),
                      dict(shape=(3, 2, 1), axis=(0, 2), method=None, cx=0),
                      dict(shape=(2, 2, 1), axis=(2, 0), method=None, cx=0),
                      dict(shape=(1, 2), axis=(0, 1), method=None, cx=0),
                      dict(shape=(2, 2), axis=None, method='sortcumsum', cx=0, _tier='thorough', _limit=200),
                      dict(shape=(2, 1, 2), axis=(0, 2), method=None, cx=0, _tier='thorough', _limit=200),
                      dict(shape=(2, 2, 1), axis=(0,), method=None, cx=0),
                      dict(shape=(2, 3, 1), axis=(1, -1), method=None, cx=0)],
          paths=40)
def proj_l1(c, shape, axis, method, cx):
    p = c.mod('sporco.prox')
    np = c.np
    v = inp(c, 'v', shape, cx)
    r = c.real('gamma', pos=True)
    c.keep(v)
    x = p.proj_l1(v, r, axis=axis, method=method)
    c.unchanged()
    c.true('shape', np.shape(x) == tuple(shape))
    g, ax = groups(shape, axis, np)
    tol = 0 if c.sym else 1e-5
    for idx in g.values():
        nv = sum(abs(v[i]) for i in idx)
        nx = sum(abs(x[i]) for i in idx)
        c.le('feasible', nx, r)
        for i in idx:
            c.implies('inside', nv <= r - 10 * tol, abs(x[i] - v[i]) <= tol)
            # same sign and never larger in magnitude
            c.le('sign', 0, x[i] * v[i])
            c.le('mag', abs(x[i]), abs(v[i]))
        c.implies('boundary', nv >= r, nx >= r - tol)
        # common threshold: |v_i| - |x_i| equal on the support, and an upper
        # bound of |v_j| off the support
        for i in idx:
            for j in idx:
                c.implies('thr', (abs(x[i]) > tol) & (abs(x[j]) >= 0),
                          abs(v[i]) - abs(x[i]) >= abs(v[j]) - abs(x[j]) - tol)


# ----------------------------------------------------------- l1 - beta l2

@reg.case('prox_dl1l2', [dict(shape=(2,), axis=None), dict(shape=(2,), axis=0),
                         dict(shape=(1, 2), axis=1), dict(shape=(2, 2), axis=-1),
                         dict(shape=(2, 1), axis=None)], limit=100)
def prox_dl1l2(c, shape, axis):
    p = c.mod('sporco.prox')
    np = c.np
    v = c.real('v', shape)
    a = c.real('alpha', pos=True)
    b = c.real('beta', nonneg=True, hi=1)
    c.keep(v)
    x = p.prox_dl1l2(v, a, b, axis=axis)
    c.unchanged()
    c.true('shape', np.shape(x) == tuple(shape))
    tol = 0 if c.sym else 1e-7
    g, ax = groups(shape, axis, np)
    for idx in g.values():
        mx = abs(v[idx[0]])
        for i in idx[1:]:
            mx = np.maximum(mx, abs(v[i]))
        s = [np.sign(v[i]) * np.maximum(abs(v[i]) - a, 0) for i in idx]
        ns = np.sqrt(sum(t ** 2 for t in s))
        nx = np.sqrt(sum(x[i] ** 2 for i in idx))
        for i, si in zip(idx, s):
            c.implies('large' + str(i), mx > a, near(c, x[i] * ns, (ns + a * b) * si))
            c.implies('small' + str(i), mx < (1 - b) * a, near(c, x[i], 0.0))
        # one-sparse regime
        mid = (mx <= a) & (mx > (1 - b) * a)
        c.implies('onesparse', mid, near(c, sum(abs(x[i]) for i in idx),
                                         mx + (b - 1) * a))
        c.implies('onesparse2', mid, near(c, sum(x[i] * v[i] for i in idx),
                                          (mx + (b - 1) * a) * mx))
        c.implies('onesparse3', mid, near(c, nx, mx + (b - 1) * a))


def near(c, a, b):
    return a == b if c.sym else abs(a - b) <= 1e-6 * (1 + abs(b))


# -------------------------------------------------------------------- nuclear

@reg.case('nuclear', [dict(shape=(2, 1)), dict(shape=(1, 2)), dict(shape=(2, 2)),
                      dict(shape=(3, 2)), dict(shape=(2, 3))], limit=100)
def nuclear(c, shape):
    """SVD contract: prox subtracts alpha from each singular value."""
    p = c.mod('sporco.prox')
    np = c.np
    V = c.real('V', shape)
    a = c.real('alpha', nonneg=True)
    X, ss = p.prox_nuclear(V, a)
    U, s, W = np.linalg.svd(V, full_matrices=False)
    c.true('shape', np.shape(X) == tuple(shape))
    sh = np.maximum(s - a, 0)
    c.eq('sv', ss, sh)
    k = min(shape)
    ref = [[sum(U[i, q] * sh[q] * W[q, j] for q in range(k)) for j in range(shape[1])]
           for i in range(shape[0])]
    c.eq('prox', X, np.array(ref))
    c.eq('norm', p.norm_nuclear(V), sum(s[q] for q in range(k)))


@reg.case('ndto2d', [dict(shape=(2, 3), axis=0), dict(shape=(2, 3), axis=-1),
                     dict(shape=(2, 2, 2), axis=(0, 2)), dict(shape=(2, 3, 2), axis=(2, 0)),
                     dict(shape=(2, 1, 2, 2), axis=(-1, 1)), dict(shape=(2, 2, 2), axis=(0, 1, 2)),
                     dict(shape=(1, 2, 3), axis=(-2,))])
def ndto2d(c, shape, axis):
    p = c.mod('sporco.prox')
    np = c.np
    x = c.real('x', shape)
    y, rsi = p.ndto2d(x, axis)
    g, ax = groups(shape, axis, np)
    n = 1
    for k in ax:
        n *= shape[k]
    c.true('ndim', np.ndim(y) == 2 and y.shape[1] == n)
    c.eq('inverse', p.ndfrom2d(y, rsi), x)
    # each row holds exactly one group
    c.eq('rows', np.sort(np.sum(y, axis=1)),
         np.sort(np.array([sum(x[i] for i in idx) for idx in g.values()])))
    z = c.real('z', y.shape)
    z2 = p.ndto2d(p.ndfrom2d(z, rsi), axis)[0]
    c.eq('inverse2', z2, z)


INTF = {'prox_l0': lambda P, x: P.prox_l0(x, 2.5), 'prox_l1': lambda P, x: P.prox_l1(x, 2.5),
        'prox_l2': lambda P, x: P.prox_l2(x, 2.5), 'prox_l2axis': lambda P, x: P.prox_l2(x, 2.5, axis=1),
        'proj_l2': lambda P, x: P.proj_l2(x, 5.0), 'norm_2l2': lambda P, x: P.norm_2l2(x, axis=0),
        'norm_l2': lambda P, x: P.norm_l2(x), 'norm_l21': lambda P, x: P.norm_l21(x, axis=1),
        'prox_sl1l2': lambda P, x: P.prox_sl1l2(x, 2.5, 1.5, axis=-1)}


@reg.case('integer', [dict(fn=f, dt=d) for f in INTF for d in ('uint8', 'int16')])
def integer(c, fn, dt):
    """an integer array gives the values that the same numbers give in floating point"""
    P = c.mod('sporco.prox')
    x = c.real('int:x', (1, 2) if fn == 'prox_sl1l2' else (2, 2), lo=0 if dt == 'uint8' else -300, hi=200, dtype=dt)
    c.keep(x)
    y = INTF[fn](P, x)
    c.unchanged()
    c.eq('value', y, INTF[fn](P, x.astype('float64')))
