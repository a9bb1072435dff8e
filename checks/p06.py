"""P06: one iteration of each ADMM sparse coding solver from an arbitrary
state solves the documented subproblems."""
from sx.run import Registry
from sx import csc, spec
reg = Registry()
MODULES = ['sporco.admm.bpdn', 'sporco.admm.cbpdn']
BOUNDS = ('one iteration from an arbitrary (symbolic) primal/dual state and signal, '
          'preceded in some cases by a penalty parameter change; signals of at most 12 samples, '
          '2 channels, 2 signals, 3 filters; fixed rational dictionaries and parameters')


def base_opt(c, yshape, ushape=None, inp=None, **kw):
    inp = inp or c.real
    o = {'Verbose': False, 'MaxMainIter': 1, 'Y0': inp('Y0', yshape),
         'U0': inp('U0', ushape or yshape), 'RelStopTol': 0.0,
         'AutoRho': {'Enabled': False}}
    o.update(kw)
    return o


def step(b, stats=False):
    """One pass of the main loop.  Residuals and functional values are the
    subject of other properties, so they are not computed here (apart from
    the linear solve accuracy in some cases); constant residuals keep the
    stopping test from splitting the paths."""
    if stats:
        b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    else:
        b.opt['FastSolve'] = True
    return b.solve()


def cut(c, b, shape, cx=0):
    """Replace the relaxed A x by an arbitrary array before the y step: the
    y and u steps are then checked for every value of it, and the relaxed
    value itself is checked separately."""
    orig = b.relax_AX
    A = (c.cplx if cx else c.real)('AXcut', shape)
    keep = {}

    def f():
        orig()
        keep['AX'] = b.AX
        b.AX = A.copy()
    b.relax_AX = f
    return A, keep


def eq_soft(c, np, name, Y, V, t, mask=1.0):
    """Y is the soft threshold of the complex array V (times a 0/1 mask)"""
    a = np.abs(V)
    c.eq(name, Y * a, mask * np.where(a > t, a - t, 0.0) * V)


def gen(c, cx):
    """inputs and fixed arrays of a real or complex problem"""
    if not cx:
        return c.real, lambda h, k: c.const(csc.vals(h, k))
    return c.cplx, lambda h, k: c.const(csc.vals(h, k) + 1j * csc.vals(h, k + 1), 'complex128')


def near_l1(c, np, v, y, rad):
    """y is the projection of v onto the l1 ball of the given radius"""
    if c.branch(sum(abs(q) for q in v) <= rad):
        for p, q in zip(v, y):
            c.eq('inside', q, p)
    else:
        t = [p - q for p, q in zip(v, y)]
        c.eq('on ball', sum(abs(q) for q in y), rad)
        # v - y is a non-negative multiple of a subgradient of the norm at y
        mx = np.max(np.abs(np.stack(t)))
        for p, q in zip(t, y):
            c.implies('nearest', q > 0, p == mx)
            c.implies('nearest', q < 0, p == -mx)


def bump(b, opt, times=1):
    """Change the penalty parameter the way the automatic update does."""
    for _ in range(times):
        b.update_rho(1, 100.0, 1.0)


def rho_opt(kw, change):
    if change:
        kw['AutoRho'] = {'Enabled': True, 'Period': 2, 'Scaling': 2.0, 'AutoScaling': False,
                         'RsdlRatio': 1.5, 'RsdlTarget': 1.0}
    return kw


def prox_joint(c, np, v, a, b, ax):
    """prox of a||.||_1 + b||.||_{2,1} (groups along ax), by definition of
    the composition soft-threshold then group shrinkage (the soft threshold
    itself is decided by P01)"""
    s = c.mod('sporco.prox').prox_l1(v, a)
    n = np.sqrt(np.sum(s * s, axis=ax, keepdims=True))
    return s, n


# ---------------------------------------------------------------- standard

BP = []
for _cls, _extra in [('BPDN', {}), ('BPDNJoint', dict(mu=0.25)), ('ElasticNet', dict(mu=0.5))]:
    for _shape in [(2, 3, 2), (3, 2, 2), (2, 2, 1)]:
        BP.append(dict(cls=_cls, shape=_shape, rlx=1.8, rho=2.0, change=0, **_extra))
    BP.append(dict(cls=_cls, shape=(2, 3, 1), rlx=1.0, rho=0.5, change=1, **_extra))
    BP.append(dict(cls=_cls, shape=(3, 2, 1), rlx=1.5, rho=None, change=1, **_extra))
BP += [dict(cls='ElasticNet', shape=(2, 2, 1), rlx=1.8, rho=2.0, mu=0.5, change=0, chk=1),
       dict(cls='ElasticNet', shape=(2, 2, 1), rlx=1.8, rho=2.0, mu=0.5, change=1, chk=1)]
BP += [dict(cls='BPDN', shape=(2, 2, 1), rlx=1.8, rho=2.0, change=0, chk=1),
       dict(cls='BPDN', shape=(2, 3, 2), rlx=1.8, rho=2.0, change=0, nonneg=1),
       dict(cls='BPDN', shape=(2, 3, 2), rlx=1.8, rho=2.0, change=0, w=1),
       dict(cls='ElasticNet', shape=(2, 3, 2), rlx=1.8, rho=2.0, change=0, w=1, mu=0.5, nonneg=1)]


@reg.case('bpdn', BP)
def bpdn(c, cls, shape, rlx, rho, change, mu=None, nonneg=0, w=0, chk=0):
    B = c.mod('sporco.admm.bpdn')
    np = c.np
    N, M, K = shape
    D = c.const(csc.vals((N, M), 3))
    S = c.real('S', (N, K))
    lm = 0.75
    W = csc.vals((M, K), 9) ** 2 if w else 1.0
    kw = dict(RelaxParam=rlx, rho=rho, NonNegCoef=bool(nonneg), LinSolveCheck=bool(chk))
    if w:
        kw['L1Weight'] = W
    opt = B.BPDN.Options(base_opt(c, (M, K), **rho_opt(kw, change)))
    args = (D, S, lm) + ((mu,) if mu is not None else ())
    b = getattr(B, cls)(*args, opt)
    r = 50.0 * lm + 1.0 if rho is None else rho
    Y0, U0 = opt['Y0'], opt['U0']
    c.keep(D, S)
    if change:
        bump(b, opt)
        r *= 2.0
        U0 = U0 / 2.0
        c.eq('rho', b.rho, r)
        b.opt['AutoRho', 'Enabled'] = False
    if cls == 'BPDNJoint':
        A, keep = cut(c, b, (M, K))
    step(b, chk)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    m = mu if cls == 'ElasticNet' else 0.0
    c.eq('xstep', D.T.dot(D.dot(X) - S) + m * X + r * (X - Y0 + U0), np.zeros((M, K)))
    AX = rlx * X + (1 - rlx) * Y0
    if cls == 'BPDNJoint':
        c.eq('relax', keep['AX'], AX)
        AX = A
    V = AX + U0
    if cls == 'BPDNJoint':
        s, n = prox_joint(c, np, V, lm / r * W, mu / r, 1)
        for i in range(M):
            for k in range(K):
                if c.branch(n[i, 0] <= mu / r):
                    c.eq('ystep0', Y[i, k], 0.0)
                else:
                    c.eq('ystep', Y[i, k] * n[i, 0], (n[i, 0] - mu / r) * s[i, k])
    else:
        P = csc.soft(np, V, lm / r * W)
        if nonneg:
            P = np.maximum(P, 0.0)
        c.eq('ystep', Y, P)
    c.eq('ustep', U, U0 + AX - Y)
    if chk:
        c.le('solve accuracy', b.getitstat().XSlvRelRes[0], 1e-6)


@reg.case('bpdn_projl1', [dict(shape=(2, 2, 1), rlx=1.8, rho=2.0), dict(shape=(2, 2, 2), rlx=1.0, rho=1.0),
                          dict(shape=(2, 1, 2), rlx=1.0, rho=1.0, nonneg=1)], limit=90)
def bpdn_projl1(c, shape, rlx, rho, nonneg=0):
    B = c.mod('sporco.admm.bpdn')
    np = c.np
    N, M, K = shape
    D = c.const(csc.vals((N, M), 3))
    S = c.real('S', (N, K))
    opt = B.BPDNProjL1.Options(base_opt(c, (M, K), RelaxParam=rlx, rho=rho, NonNegCoef=bool(nonneg)))
    b = B.BPDNProjL1(D, S, 1.5, opt)
    Y0, U0 = opt['Y0'], opt['U0']
    step(b)
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    c.eq('xstep', D.T.dot(D.dot(X) - S) + rho * (X - Y0 + U0), np.zeros((M, K)))
    V = rlx * X + (1 - rlx) * Y0 + U0
    if not nonneg:
        for k in range(K):
            near_l1(c, np, [V[i, k] for i in range(M)], [Y[i, k] for i in range(M)], 1.5)
    else:
        c.true('nonneg', np.all(Y >= 0))
    c.eq('ustep', U, V - Y)


@reg.case('minl1_inl2', [dict(shape=(2, 3, 2), rlx=1.8, rho=2.0), dict(shape=(3, 2, 1), rlx=1.0, rho=0.5),
                         dict(shape=(2, 2, 1), rlx=1.5, rho=2.0, nonneg=1),
                         dict(shape=(2, 2, 2), rlx=1.5, rho=2.0, w=1, change=1)])
def minl1_inl2(c, shape, rlx, rho, nonneg=0, w=0, change=0):
    B = c.mod('sporco.admm.bpdn')
    np = c.np
    N, M, K = shape
    D = c.const(csc.vals((N, M), 3))
    S = c.real('S', (N, K))
    eps = 0.75
    W = csc.vals((M, K), 9) ** 2 if w else 1.0
    kw = dict(RelaxParam=rlx, rho=rho, NonNegCoef=bool(nonneg))
    if w:
        kw['L1Weight'] = W
    opt = B.MinL1InL2Ball.Options(base_opt(c, (M + N, K), **rho_opt(kw, change)))
    b = B.MinL1InL2Ball(D, S, eps, opt)
    Y0, U0 = opt['Y0'], opt['U0']
    r = rho
    if change:
        bump(b, opt)
        r *= 2.0
        U0 = U0 / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    step(b)
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    V = Y0 - U0
    c.eq('xstep', (X - V[:M]) + D.T.dot(D.dot(X) - V[M:]), np.zeros((M, K)))
    AX = np.concatenate((X, D.dot(X)), axis=0)
    AX = rlx * AX + (1 - rlx) * Y0
    P = csc.soft(np, (AX + U0)[:M], W / r)
    if nonneg:
        P = np.maximum(P, 0.0)
    c.eq('ystep0', b.var_y0(), P)
    Q = (AX + U0)[M:] - S
    for k in range(K):
        n = np.sqrt(sum(Q[i, k] * Q[i, k] for i in range(N)))
        inside = c.branch(n <= eps)
        for i in range(N):
            if inside:
                c.eq('ystep1', b.var_y1()[i, k], Q[i, k] + S[i, k])
            else:
                c.eq('ystep1', (b.var_y1()[i, k] - S[i, k]) * n, eps * Q[i, k])
    c.eq('cat', Y, np.concatenate((b.var_y0(), b.var_y1()), axis=0))
    c.eq('ustep', U, U0 + AX - Y)


# ----------------------------------------------------------- convolutional

def lay(N, n, C, Cd, K, M):
    """-> (external D shape, external S shape, internal D, S, X shapes)"""
    D = n + ((Cd,) if Cd > 1 else ()) + (M,)
    S = N + ((C,) if C > 1 else ()) + ((K,) if K > 1 else ())
    Cx = C if Cd == 1 else 1
    return D, S, n + (Cd, 1, M), N + (C, K, 1), N + (Cx, K, M)


L1D = [(4,), (2,), 1, 1, 1, 2]
LAY = {
    '1d': ((4,), (2,), 1, 1, 1, 2),
    '1ds': ((2,), (2,), 1, 1, 1, 1),
    '1dodd': ((3,), (2,), 1, 1, 1, 2),
    '1dk': ((4,), (2,), 1, 1, 2, 2),
    '1dc': ((4,), (3,), 2, 1, 1, 2),
    '1dcd': ((4,), (2,), 2, 2, 1, 2),
    '1dcdk': ((2,), (2,), 2, 2, 2, 3),
    '2d': ((2, 4), (2, 2), 1, 1, 1, 2),
    '2dodd': ((2, 3), (2, 2), 1, 1, 1, 2),
    '2dk': ((4, 2), (2, 1), 1, 1, 2, 2),
    '2dcd': ((2, 2), (2, 2), 2, 2, 1, 3),
    '2dcd3': ((2, 2), (1, 2), 3, 3, 1, 2),
    '2dck': ((2, 2), (2, 1), 2, 1, 2, 2),
    '3d': ((2, 2, 2), (2, 1, 2), 1, 1, 1, 2),
    '2dm1': ((2, 4), (2, 3), 1, 1, 2, 1),
}


def dimk(C, Cd, K):
    """dimK argument needed to disambiguate the external layout"""
    if C > 1 and Cd == 1 and K == 1:
        return 0
    return None


def nbc_mask(np, shpX, n, dimN):
    m = np.ones(shpX)
    for k in range(dimN):
        if n[k] > 1:
            m[(slice(None),) * k + (slice(shpX[k] - n[k] + 1, None),)] = 0.0
    return m


CB = []
for _l in ('1d', '1dodd', '1dk', '1dc', '1dcd', '1dcdk', '2d', '2dodd', '2dk', '2dcd', '2dcd3', '2dck', '3d', '2dm1'):
    CB.append(dict(cls='ConvBPDN', l=_l, rlx=1.8, rho=2.0))
for _c, _m in (('ConvBPDN', None), ('ConvElasticNet', 0.5), ('ConvBPDNGradReg', 0.5)):
    for _l in ('1d', '1dcd', '2dk'):
        for _h in (0, 1):
            CB.append(dict(cls=_c, l=_l, rlx=1.0 if _h else 1.5, rho=0.75, change=1, hi=_h, mu=_m))
            CB.append(dict(cls=_c, l=_l, rlx=1.8, rho=None, hi=_h, mu=_m))
    CB.append(dict(cls=_c, l='2dcd', rlx=1.8, rho=2.0, mu=_m, w='full', nonneg=1))
    CB.append(dict(cls=_c, l='2dck', rlx=1.8, rho=2.0, mu=_m, w='ext'))
    CB.append(dict(cls=_c, l='1dk', rlx=1.8, rho=2.0, mu=_m, w='ext', nbc=1))
for _c, _m in (('ConvElasticNet', 0.5), ('ConvBPDNGradReg', 0.5), ('ConvBPDNJoint', 0.25)):
    for _l in ('1dodd', '1dc', '2d', '2dcd', '1dcdk'):
        CB.append(dict(cls=_c, l=_l, rlx=1.8, rho=2.0, mu=_m))
CB += [dict(cls='ConvBPDN', l=_l, rlx=1.8, rho=2.0, nbc=1, nonneg=_n) for _l in ('1d', '2d', '2dk', '3d', '2dcd3')
       for _n in (0, 1)]
CB += [dict(cls='ConvBPDN', l='1ds', rlx=1.8, rho=2.0, chk=1),
       dict(cls='ConvBPDNJoint', l='1dc', rlx=1.5, rho=0.75, mu=0.25, change=1, hi=1),
       dict(cls='ConvBPDNJoint', l='2dck', rlx=1.8, rho=None, mu=0.25, hi=1),
       dict(cls='ConvBPDNJoint', l='2dck', rlx=1.8, rho=2.0, mu=0.25, nonneg=1),
       dict(cls='ConvBPDNJoint', l='1dc', rlx=1.8, rho=2.0, mu=0.25, w='ext'),
       dict(cls='ConvBPDNGradReg', l='1d', rlx=1.8, rho=2.0, mu=0.5, gw=1),
       dict(cls='ConvBPDNGradReg', l='2dck', rlx=1.8, rho=2.0, mu=0.5, gw=1, hi=1),
       dict(cls='ConvBPDNGradReg', l='1dcd', rlx=1.8, rho=2.0, mu=0.5, gw=1)]
CB += [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, mu=_m, hi=_h, nd=1) for _c, _m in
       (('ConvBPDN', None), ('ConvElasticNet', 0.5), ('ConvBPDNGradReg', 0.5)) for _l, _h in (('1dk', 0), ('1dk', 1), ('1dcd', 1))]
CB += [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, mu=_m, hi=_h, chk='x', change=_g) for _c, _m in
       (('ConvBPDN', None), ('ConvElasticNet', 0.5), ('ConvBPDNGradReg', 0.5)) for _l, _h, _g in (('1dk', 0, 0), ('1d', 1, 1), ('1dc', 0, 0), ('1dcd', 0, 1))]
_s = set()
CB = [d for d in CB if not (repr(sorted(d.items(), key=str)) in _s or _s.add(repr(sorted(d.items(), key=str))))]


CB += [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, mu=_m, cx=1) for _c, _m in (('ConvBPDN', None), ('ConvElasticNet', 0.5), ('ConvBPDNGradReg', 0.5))
       for _l in ('1d', '1dk', '1dcd', '1dc')]
CB += [dict(cls='ConvBPDN', l='1d', rlx=1.8, rho=2.0, nbc=1, cx=1), dict(cls='ConvBPDN', l='1dk', rlx=1.8, rho=2.0, w='ext', cx=1, nd=1),
       dict(cls='ConvBPDN', l='1d', rlx=1.8, rho=2.0, hi=1, chk='x', cx=1), dict(cls='ConvElasticNet', l='1d', rlx=1.8, rho=2.0, mu=0.5, chk='x', cx=1),
       dict(cls='ConvBPDNGradReg', l='1d', rlx=1.8, rho=2.0, mu=0.5, chk='x', cx=1), dict(cls='ConvBPDN', l='1dcd', rlx=1.8, rho=None, change=1, cx=1)]


@reg.case('cbpdn', CB)
def cbpdn(c, cls, l, rlx, rho, mu=None, change=0, hi=0, w=None, nonneg=0, nbc=0, gw=0, chk=0, nd=0, cx=0):
    B = c.mod('sporco.admm.cbpdn')
    np = c.np
    N, n, C, Cd, K, M = LAY[l]
    dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
    dimN = len(N)
    inp, cst = gen(c, cx)
    D = cst(dsh, 5)
    S = inp('S', ssh)
    lm = 0.75
    kw = dict(RelaxParam=rlx, rho=rho, NonNegCoef=bool(nonneg), NoBndryCross=bool(nbc),
              HighMemSolve=bool(hi), LinSolveCheck=bool(chk))
    Wi = 1.0
    if w == 'full':
        Wi = csc.vals(xi, 9) ** 2
        kw['L1Weight'] = Wi
    elif w == 'ext':
        e = csc.vals(ssh + (M,), 9) ** 2
        kw['L1Weight'] = e
        Wi = e.reshape(N + ((C,) if C > 1 else (1,)) + (K, M))
    C_ = getattr(B, cls)
    gwt = 1.0
    if gw:
        gwt = csc.vals((M,), 4) ** 2
        kw['GradWeight'] = gwt
    opt = C_.Options(base_opt(c, xi, inp=inp, **rho_opt(kw, change)))
    args = (D, S, lm) + ((mu,) if mu is not None else ())
    c.keep(D, S, opt['Y0'], opt['U0'])
    b = C_(*args, opt, dimK=dimk(C, Cd, K), dimN=dimN)
    if nd:
        D = cst(dsh, 15)
        b.setdict(D.reshape(di))
    r = 50.0 * lm + 1.0 if rho is None else rho
    Y0, U0 = opt['Y0'], opt['U0']
    if change:
        bump(b, opt)
        r *= 2.0
        U0 = U0 / 2.0
        c.eq('rho', b.rho, r)
        b.opt['AutoRho', 'Enabled'] = False
    if cls == 'ConvBPDNJoint' or cx:
        A, keep = cut(c, b, xi, cx)
    if chk == 'x':
        b.xstep()
        c.le('solve accuracy', b.xrrs, 1e-6)
        return
    step(b, chk)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    Di, Si = D.reshape(di), S.reshape(si)
    g = csc.DTmul(np, Di, csc.Dmul(np, Di, X, dimN) - Si, dimN) + r * (X - Y0 + U0)
    if cls == 'ConvElasticNet':
        g = g + mu * X
    if cls == 'ConvBPDNGradReg':
        for ax in range(dimN):
            g = g + mu * gwt * csc.gradT(np, csc.grad(np, X, ax), ax)
    c.eq('xstep', g, np.zeros(xi))
    AX = rlx * X + (1 - rlx) * Y0
    if cls == 'ConvBPDNJoint' or cx:
        c.eq('relax', keep['AX'], AX)
        AX = A
    V = AX + U0
    if cls == 'ConvBPDNJoint' and not nonneg:
        s, nn = prox_joint(c, np, V, lm / r * Wi, mu / r, dimN)
        nn = np.broadcast_to(nn, xi)
        z = np.where(nn > mu / r, (nn - mu / r) * s, 0.0)
        c.eq('ystep', Y * nn, z)
        for i in spec.ndi(xi):
            c.implies('ystep0', nn[i] <= mu / r, Y[i] == 0.0)
    elif cx:
        eq_soft(c, np, 'ystep', Y, V, lm / r * Wi + np.zeros(xi), nbc_mask(np, xi, n, dimN) if nbc else 1.0)
    elif cls != 'ConvBPDNJoint':
        P = csc.soft(np, V, lm / r * Wi)
        if nonneg:
            P = np.where(P > 0, P, 0.0)
        if nbc:
            P = P * nbc_mask(np, xi, n, dimN)
        c.eq('ystep', Y, P)
    if nonneg:
        for i in spec.ndi(xi):
            c.true('nonneg', Y[i] >= 0)
    c.eq('ustep', U, U0 + AX - Y)
    if chk:
        c.le('solve accuracy', b.getitstat().XSlvRelRes[0], 1e-6)


@reg.case('cbpdn_complex', [dict(N=(4,), n=(2,)), dict(N=(2, 2), n=(2, 1))])
def cbpdn_complex(c, N, n):
    """Complex dictionary and signal."""
    B = c.mod('sporco.admm.cbpdn')
    np = c.np
    dimN = len(N)
    M = 2
    D = c.const(csc.vals(n + (M,), 5) + 1j * csc.vals(n + (M,), 6), 'complex128')
    S = c.cplx('S', N)
    xi = N + (1, 1, M)
    o = base_opt(c, xi, RelaxParam=1.5, rho=2.0)
    o['Y0'] = o['Y0'] + 1j * c.real('Y0i', xi)
    o['U0'] = o['U0'] + 1j * c.real('U0i', xi)
    opt = B.ConvBPDN.Options(o)
    b = B.ConvBPDN(D, S, 0.75, opt, dimN=dimN)
    step(b)
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    Y0, U0 = o['Y0'], o['U0']
    Di, Si = D.reshape(n + (1, 1, M)), S.reshape(N + (1, 1, 1))
    g = csc.DTmul(np, Di, csc.Dmul(np, Di, X, dimN) - Si, dimN) + 2.0 * (X - Y0 + U0)
    c.eq('xstep', g, np.zeros(xi) * 1j)
    V = 1.5 * X - 0.5 * Y0 + U0
    a = np.abs(V)
    t = 0.75 / 2.0
    c.eq('ystep', Y * a, np.where(a > t, a - t, 0.0) * V)
    c.eq('ustep', U, V - Y)


@reg.case('cbpdn_projl1', [dict(l='1d1'), dict(l='2k')], limit=90)
def cbpdn_projl1(c, l):
    B = c.mod('sporco.admm.cbpdn')
    np = c.np
    N, n, K, M = {'1d1': ((2,), (2,), 1, 1), '2k': ((2,), (1,), 2, 1)}[l]
    D = c.const(csc.vals(n + (M,), 5))
    S = c.real('S', N + ((K,) if K > 1 else ()))
    xi = N + (1, K, M)
    opt = B.ConvBPDNProjL1.Options(base_opt(c, xi, RelaxParam=1.5, rho=2.0))
    b = B.ConvBPDNProjL1(D, S, 1.5, opt, dimN=1)
    step(b)
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    Y0, U0 = opt['Y0'], opt['U0']
    Di, Si = D.reshape(n + (1, 1, M)), S.reshape(N + (1, K, 1))
    g = csc.DTmul(np, Di, csc.Dmul(np, Di, X, 1) - Si, 1) + 2.0 * (X - Y0 + U0)
    c.eq('xstep', g, np.zeros(xi))
    V = 1.5 * X - 0.5 * Y0 + U0
    for k in range(K):
        v = [V[i, 0, k, 0] for i in range(N[0])]
        y = [Y[i, 0, k, 0] for i in range(N[0])]
        near_l1(c, np, v, y, 1.5)
    c.eq('ustep', U, V - Y)


# ------------------------------------------------- two-block convolutional

TB = []
for _c in ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd'):
    for _l in ('1d', '1dodd', '1dk', '1dcd', '2d', '2dck', '2dcd', '1dcdk'):
        TB.append(dict(cls=_c, l=_l, rlx=1.8, rho=2.0))
    for _l in ('1d', '2dcd'):
        for _h in (0, 1):
            TB.append(dict(cls=_c, l=_l, rlx=1.5 if _h else 1.0, rho=0.75, change=1, hi=_h))
    TB.append(dict(cls=_c, l='2dk', rlx=1.8, rho=2.0, nonneg=1, nbc=1))
    TB.append(dict(cls=_c, l='2d', rlx=1.8, rho=2.0, nbc=1, w='ext'))
    TB.append(dict(cls=_c, l='2dcd', rlx=1.8, rho=2.0, w='full', nonneg=1))
    TB.append(dict(cls=_c, l='1dk', rlx=1.8, rho=2.0, w='ext'))
TB += [dict(cls='ConvL1L1Grd', l='1d', rlx=1.8, rho=2.0, gw=1, hi=1), dict(cls='ConvL1L1Grd', l='2dcd', rlx=1.8, rho=2.0, gw=1)]
TB += [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, hi=_h, nd=1) for _c in ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')
       for _l, _h in (('1dk', 0), ('1dk', 1), ('1dcd', 1))]
TB += [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, hi=_h, chk='x', change=_g) for _c in ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')
       for _l, _h, _g in (('1dk', 0, 0), ('1d', 1, 1), ('1dcd', 0, 1))]
MSK = [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, msk=_m) for _c in ('ConvBPDNMaskDcpl', 'ConvL1L1Grd')
       for _l, _m in (('1d', 'ext'), ('2dck', 'ext'), ('2dck', 'N'), ('2dcd', 'ext'), ('1dk', 'ext'), ('1dcdk', 'full'))]


TB += [dict(cls=_c, l=_l, rlx=1.8, rho=2.0, cx=1) for _c in ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd') for _l in ('1d', '1dk', '1dcd')]
TB += [dict(cls=_c, l='1d', rlx=1.8, rho=2.0, chk='x', cx=1) for _c in ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')]
MSK += [dict(cls=_c, l='1dk', rlx=1.8, rho=2.0, msk='ext', cx=1) for _c in ('ConvBPDNMaskDcpl', 'ConvL1L1Grd')]


@reg.case('cbpdn2b', TB + MSK)
def cbpdn2b(c, cls, l, rlx, rho, change=0, hi=0, w=None, nonneg=0, nbc=0, gw=0, msk=None, chk=0, nd=0, cx=0):
    B = c.mod('sporco.admm.cbpdn')
    np = c.np
    N, n, C, Cd, K, M = LAY[l]
    dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
    dimN = len(N)
    inp, cst = gen(c, cx)
    D = cst(dsh, 5)
    S = inp('S', ssh)
    lm, mu, eps = 0.75, 0.5, 0.75
    kw = dict(RelaxParam=rlx, rho=rho, NonNegCoef=bool(nonneg), NoBndryCross=bool(nbc),
              HighMemSolve=bool(hi), LinSolveCheck=bool(chk))
    Wi = 1.0
    if w == 'full':
        Wi = csc.vals(xi, 9) ** 2
        kw['L1Weight'] = Wi
    elif w == 'ext':
        e = csc.vals(ssh + (M,), 9) ** 2
        kw['L1Weight'] = e
        Wi = e.reshape(N + ((C,) if C > 1 else (1,)) + (K, M))
    C_ = getattr(B, cls)
    gwt = 1.0
    if gw:
        gwt = csc.vals((M,), 4) ** 2
        kw['GradWeight'] = gwt
    args = {'ConvMinL1InL2Ball': (D, S, eps), 'ConvBPDNMaskDcpl': (D, S, lm),
            'ConvL1L1Grd': (D, S, lm, mu)}[cls]
    mk = 1.0
    kws = dict(dimK=dimk(C, Cd, K), dimN=dimN)
    if msk:
        msh = {'ext': ssh, 'N': N, 'full': si}[msk]
        mk = c.real('W', msh, nonneg=True, hi=2)
        kws['W'] = mk
        mk = mk.reshape(N + (1, 1, 1)) if msk == 'N' else mk.reshape(si)
    # state: data block and coefficient block
    o0 = inp('Yd', si), inp('Ud', si)
    o1 = inp('Yx', xi), inp('Ux', xi)

    def cat(a, b_):
        """combined array as documented: blocks concatenated on the filter
        axis, with the channels of a multi-channel data block moved there"""
        if Cd > 1:
            a = np.swapaxes(a, dimN, dimN + 2)
        return np.concatenate((a, b_), axis=dimN + 2)
    kw['Y0'], kw['U0'] = cat(o0[0], o1[0]), cat(o0[1], o1[1])
    o = base_opt(c, (1,), **rho_opt(kw, change))
    opt = C_.Options(o)
    c.keep(D, S)
    b = C_(*args, opt=opt, **kws)
    if nd:
        D = cst(dsh, 15)
        b.setdict(D.reshape(di))
    r = rho
    U0d, U0x = o0[1], o1[1]
    Y0d, Y0x = o0[0], o1[0]
    if change:
        bump(b, opt)
        r *= 2.0
        U0d, U0x = U0d / 2.0, U0x / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    if cls == 'ConvMinL1InL2Ball' or cx:
        A, keep = cut(c, b, kw['Y0'].shape, cx)
    if chk == 'x':
        b.xstep()
        c.le('solve accuracy', b.xrrs, 1e-6)
        return
    step(b, chk)
    c.unchanged()
    X = b.var_x()
    Yd, Yx = b.var_y0(), b.var_y1()
    U = b.var_u()
    Di, Si = D.reshape(di), S.reshape(si)
    # minimiser of f(x) + rho/2 (||Dx - yd - s + ud||^2 + ||x - yx + ux||^2)
    DX = csc.Dmul(np, Di, X, dimN)
    g = csc.DTmul(np, Di, DX - Y0d - Si + U0d, dimN) + X - Y0x + U0x
    if cls == 'ConvL1L1Grd':
        for ax in range(dimN):
            g = g + (mu / r) * gwt * csc.gradT(np, csc.grad(np, X, ax), ax)
    c.eq('xstep', g, np.zeros(xi))
    Ad = rlx * DX + (1 - rlx) * (Y0d + Si)
    Ax = rlx * X + (1 - rlx) * Y0x
    if cls == 'ConvMinL1InL2Ball' or cx:
        c.eq('relax', keep['AX'], cat(Ad, Ax))
        Ad, Ax = A[..., :Cd], A[..., Cd:]
        if Cd > 1:
            Ad = np.swapaxes(Ad, dimN, dimN + 2)
    V = Ad + U0d - Si
    if cls == 'ConvMinL1InL2Ball':
        nn = np.broadcast_to(np.sqrt(np.sum((V * np.conj(V)).real if cx else V * V, axis=tuple(range(dimN)), keepdims=True)), si)
        c.eq('ydata', Yd * nn, np.where(nn > eps, eps, nn) * V)
        t = 1.0 / r
    elif cls == 'ConvBPDNMaskDcpl':
        c.eq('ydata', (mk ** 2 + r) * Yd, r * V)
        t = lm / r
    elif cx:
        eq_soft(c, np, 'ydata', Yd, V, mk / r + np.zeros(si))
        t = lm / r
    else:
        c.eq('ydata', Yd, csc.soft(np, V, mk / r + 0 * V))
        t = lm / r
    if cx:
        eq_soft(c, np, 'ycoef', Yx, Ax + U0x, t * Wi + np.zeros(xi), nbc_mask(np, xi, n, dimN) if nbc else 1.0)
    else:
        P = csc.soft(np, Ax + U0x, t * Wi)
        if nonneg:
            P = np.where(P > 0, P, 0.0)
        if nbc:
            P = P * nbc_mask(np, xi, n, dimN)
        c.eq('ycoef', Yx, P)
    c.eq('ustep', U, cat(U0d + Ad - Yd - Si, U0x + Ax - Yx))
    c.eq('cat', b.var_y(), cat(Yd, Yx))
    if chk:
        c.le('solve accuracy', b.getitstat().XSlvRelRes[0], 1e-6)


# -------------------------------------------------- additive mask simulation

@reg.case('addmask', [dict(l=_l, msk=_m, cls=_c) for _c in ('ConvBPDN', 'ConvElasticNet', 'ConvBPDNProjL1x')
                      for _l, _m in (('1d', 'ext'), ('1dk', 'ext'), ('1dc', 'ext'), ('1dcd', 'ext'), ('2dcd', 'N'),
                                     ('2d', 'ext'), ('1dcdk', 'full')) if not _c.endswith('x')] +
          [dict(l=_l, msk='ext', cls='ConvBPDN', nd=1) for _l in ('1dk', '1dcd', '2dcd')])
def addmask(c, l, msk, cls, nd=0):
    B = c.mod('sporco.admm.cbpdn')
    np = c.np
    N, n, C, Cd, K, M = LAY[l]
    dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
    dimN = len(N)
    D = c.const(csc.vals(dsh, 5))
    S = c.real('S', ssh)
    lm, rlx, r = 0.75, 1.5, 2.0
    msh = {'ext': ssh, 'N': N, 'full': si}[msk]
    mv = (csc.vals(msh, 8) > 0).astype(float)
    W = c.const(mv)
    mi = np.broadcast_to(W.reshape(N + (1, 1, 1)) if msk == 'N' else W.reshape(si), si)
    xe = xi[:-1] + (M + Cd,)
    opt = getattr(B, cls).Options(base_opt(c, xe, RelaxParam=rlx, rho=r))
    args = (lm, 0.5) if cls == 'ConvElasticNet' else (lm,)
    kws = {} if dimN == 2 else {'dimN': dimN}
    if dimk(C, Cd, K) is not None:
        kws['dimK'] = dimk(C, Cd, K)
    b = B.AddMaskSim(getattr(B, cls), D, S, W, *args, opt=opt, **kws)
    if nd:
        D = c.const(csc.vals(dsh, 15))
        b.setdict(D.reshape(di))
    b.cbpdn.opt['FastSolve'] = True
    X1 = b.solve()
    X, Y, U = b.cbpdn.var_x(), b.cbpdn.var_y(), b.cbpdn.var_u()
    Y0, U0 = opt['Y0'], opt['U0']
    V = rlx * X + (1 - rlx) * Y0 + U0
    # the impulse filters reproduce the additive component directly
    Di, Si = D.reshape(di), S.reshape(si)
    A = X[..., M:]
    if Cd > 1:
        A = np.swapaxes(A, dimN, dimN + 2)
    E = csc.Dmul(np, Di, X[..., :M], dimN) + A - Si
    m = 0.5 if cls == 'ConvElasticNet' else 0.0
    c.eq('xstep', csc.DTmul(np, Di, E, dimN) + m * X[..., :M] + r * (X - Y0 + U0)[..., :M], np.zeros(xi))
    Ei = np.swapaxes(E, dimN, dimN + 2) if Cd > 1 else E
    c.eq('xadd', Ei + m * X[..., M:] + r * (X - Y0 + U0)[..., M:], np.zeros(xe[:-1] + (Cd,)))
    c.eq('ystep', Y[..., :M], csc.soft(np, V[..., :M], lm / r))
    Ya, Va = Y[..., M:], V[..., M:]
    if Cd > 1:
        Ya, Va = np.swapaxes(Ya, dimN, dimN + 2), np.swapaxes(Va, dimN, dimN + 2)
    # the additive component is free exactly where the mask is zero
    c.eq('yadd', Ya, np.where(mi != 0, 0.0, Va))
    c.eq('ustep', U, V - Y)
    c.eq('coef', b.getcoef(), Y[..., :M])
    c.eq('ret', X1, Y[..., :M])
    rec = b.reconstruct()
    want = csc.Dmul(np, Di, Y[..., :M], dimN)[..., 0]
    c.eq('recon', rec, want)


@reg.case('multidict', [dict(ch=0), dict(ch=1), dict(ch=0, K=2), dict(ch=1, K=2), dict(ch=0, solve=1), dict(ch=1, K=2, solve=1),
                        dict(ch=0, n=3), dict(ch=1, n=3, inner='ConvElasticNet'), dict(ch=0, inner='ConvElasticNet', solve=1),
                        dict(ch=0, dim=2), dict(ch=1, dim=2, solve=1), dict(ch=0, K=2, w=1), dict(ch=1, w=1, X=1)])
def multidict(c, ch, K=1, solve=0, n=2, inner='ConvBPDN', dim=1, w=0, X=0):
    """Dictionaries of different sizes sharing one coefficient array."""
    B = c.mod('sporco.admm.cbpdn')
    np = c.np
    N, M, r, rlx, lm = (4, 2)[:dim], 2, 2.0, 1.5, 0.75
    fs, cs = [(2, 1), (3, 2), (1, 1)][:n], [2, 1, 1][:n] if ch else [1] * n
    ex = (K,) if K > 1 else ()
    d = [c.const(csc.vals(fs[k][:dim] + ((cs[k],) if ch else ()) + (M,), 5 + k)) for k in range(n)]
    s = [c.real('S%d' % k, N + ((cs[k],) if ch else ()) + ex) for k in range(n)]
    xi = N + (1, K, M)
    mu = 0.5 if inner == 'ConvElasticNet' else 0.0
    wl = csc.vals(xi, 9) ** 2 if w else 1.0
    o = base_opt(c, xi, RelaxParam=rlx, rho=r, L1Weight=wl, ReturnX=bool(X), FastSolve=False)
    if solve:
        # values of the norms are not of interest here
        o.update(FastSolve=True, MaxMainIter=1)
    opt = getattr(B, inner).Options(o)
    args = (lm, mu) if mu else (lm,)
    kw = dict(dimN=dim) if dim != 2 else {}
    b = B.MultiDictConvBPDN(getattr(B, inner), d, s, *args, opt=opt, dimK=1 if K > 1 else 0, **kw)
    c.keep(*(d + s))
    ret = b.solve() if solve else step(b.cbpdn)
    c.unchanged()
    X_, Y, U = b.cbpdn.var_x(), b.cbpdn.var_y(), b.cbpdn.var_u()
    Y0, U0 = opt['Y0'], opt['U0']
    g = r * (X_ - Y0 + U0) + mu * X_
    Z = c.const(csc.vals(xi, 21))
    for k in range(n):
        Dk = d[k].reshape(fs[k][:dim] + (cs[k], 1, M))
        Sk = s[k].reshape(N + (cs[k], K, 1))
        g = g + csc.DTmul(np, Dk, csc.Dmul(np, Dk, X_, dim) - Sk, dim)
        c.eq('recon', b.reconstruct(k), csc.Dmul(np, Dk, X_ if X else Y, dim)[..., 0])
        c.eq('recon given', b.reconstruct(k, Z), csc.Dmul(np, Dk, Z, dim)[..., 0])
    c.eq('xstep', g, np.zeros(xi))
    V = rlx * X_ + (1 - rlx) * Y0 + U0
    c.eq('ystep', Y, csc.soft(np, V, lm * wl / r))
    c.eq('ustep', U, V - Y)
    c.eq('coef', b.getcoef(), X_ if X else Y)
    if solve:
        c.eq('solution', ret, X_ if X else Y)
        c.true('statistics', b.itstat is b.cbpdn.itstat and b.timer is b.cbpdn.timer)
        c.true('elapsed', b.timer.elapsed('solve') >= 0)


# --------------------------------------------------- dual initialisation

@reg.case('dual_init', [dict(cls='BPDN'), dict(cls='ConvBPDN'), dict(cls='ConvElasticNet'), dict(cls='ConvBPDNMaskDcpl'),
                        dict(cls='MinL1InL2Ball'), dict(cls='ConvMinL1InL2Ball'), dict(cls='ConvBPDNProjL1'),
                        dict(cls='BPDNProjL1'), dict(cls='ConvBPDNJoint'), dict(cls='ConvL1L1Grd')])
def dual_init(c, cls):
    """A warm start with only the primal variable given is accepted."""
    np = c.np
    std = cls in ('BPDN', 'MinL1InL2Ball', 'BPDNProjL1')
    B = c.mod('sporco.admm.bpdn' if std else 'sporco.admm.cbpdn')
    C_ = getattr(B, cls)
    lm, r = 0.75, 2.0
    if std:
        D, S = c.const(csc.vals((2, 3), 5)), c.real('S', (2, 1))
        ysh = (5, 1) if cls == 'MinL1InL2Ball' else (3, 1)
        kws = {}
    else:
        D, S = c.const(csc.vals((2, 2), 5)), c.real('S', (4,))
        ysh = (4, 1, 1, 3 if cls in ('ConvBPDNMaskDcpl', 'ConvMinL1InL2Ball', 'ConvL1L1Grd') else 2)
        kws = {'dimN': 1}
    Y0 = c.real('Y0', ysh)
    opt = C_.Options({'Verbose': False, 'MaxMainIter': 1, 'Y0': Y0, 'rho': r, 'AutoRho': {'Enabled': False}})
    args = (lm, 0.5) if cls in ('ConvElasticNet', 'ConvBPDNJoint', 'ConvL1L1Grd') else (lm,)
    b = C_(D, S, *args, opt=opt, **kws)
    c.eq('primal', b.var_y(), Y0)
    U = b.var_u()
    c.true('shape', tuple(U.shape) == ysh)
    if cls in ('BPDN', 'ConvBPDN', 'ConvElasticNet', 'ConvBPDNJoint'):
        # dual optimality: rho U is a subgradient of lambda ||.||_1 at Y
        for i in spec.ndi(ysh):
            c.implies('subgrad', Y0[i] > 0, r * U[i] == lm)
            c.implies('subgrad', Y0[i] < 0, r * U[i] == -lm)
            c.true('subgrad', abs(r * U[i]) <= lm)
    if cls == 'ConvBPDNMaskDcpl':
        for i in spec.ndi((4, 1, 1)):
            c.eq('subgrad data', r * U[i + (0,)], Y0[i + (0,)])
            for m in (1, 2):
                c.implies('subgrad', Y0[i + (m,)] > 0, r * U[i + (m,)] == lm)
                c.implies('subgrad', Y0[i + (m,)] < 0, r * U[i + (m,)] == -lm)
                c.true('subgrad', abs(r * U[i + (m,)]) <= lm)
    step(b, True)
    c.true('ran', len(b.itstat) == 1)


INTS = {'BPDN': ('bpdn', (0.3,), {}), 'BPDNJoint': ('bpdn', (0.3, 0.2), {}), 'ElasticNet': ('bpdn', (0.3, 0.2), {}), 'MinL1InL2Ball': ('bpdn', (0.3,), {}),
        'BPDNProjL1': ('bpdn', (0.3,), {}), 'ConvBPDN': ('cbpdn', (0.3,), {}), 'ConvElasticNet': ('cbpdn', (0.3, 0.2), {}),
        'ConvBPDNGradReg': ('cbpdn', (0.3, 0.2), {}), 'ConvMinL1InL2Ball': ('cbpdn', (0.3,), {}),
        'ConvBPDNMaskDcpl': ('cbpdn', (0.3,), {}), 'ConvL1L1Grd': ('cbpdn', (0.3, 0.2), {})}


@reg.case('integer', [dict(cls=k, dt=d) for k in INTS for d in ('uint8', 'int64')])
def integer(c, cls, dt):
    """integer signals"""
    m, par, kw = INTS[cls]
    B = getattr(c.mod('sporco.admm.' + m), cls)
    conv = m == 'cbpdn'
    D = c.const(csc.vals((2, 1, 2) if conv else (2, 2), 3))

    def make(S):
        o = {'Verbose': False, 'MaxMainIter': 1, 'AutoRho': {'Enabled': False}, 'FastSolve': True, 'rho': 1.5}
        return B(D, S, *par, opt=B.Options(o), **kw)
    csc.intdiff(c, make, (2, 2) if conv else (2, 1), dt)
