"""P07: one iteration of the specialised ADMM convolutional sparse coding
solvers (total variation, inhibition, product dictionaries) from an arbitrary
state solves the documented subproblems."""
from sx.run import Registry
from sx import csc, spec
from checks.p06 import base_opt, step, cut, bump, rho_opt, LAY, lay, dimk, nbc_mask
reg = Registry()
MODULES = ['sporco.admm.cbpdntv', 'sporco.admm.cbpdnin', 'sporco.admm.pdcsc']
BOUNDS = ('one iteration (two for the adaptive inhibition weights) from an arbitrary '
          '(symbolic) state and signal; signals of at most 8 samples, 2 channels, 2 signals, '
          '3 filters; fixed rational dictionaries, product dictionaries and parameters')


def shrink(c, np, V, Y, ax, t):
    """Y is the group shrinkage of V (groups along ax)"""
    n = np.broadcast_to(np.sqrt(np.sum(V * V, axis=ax, keepdims=True)), V.shape)
    c.eq('ygroup', Y * n, np.where(n > t, (n - t) * V, 0.0))
    for i in spec.ndi(V.shape):
        c.implies('ygroup0', n[i] <= t, Y[i] == 0.0)


# -------------------------------------------------------- total variation

TV = []
for _c in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV'):
    for _l in ('1d', '1dk', '1dc', '1dcd', '2ds', '2dcds', '1dcdk'):
        TV.append(dict(cls=_c, l=_l, rlx=1.5))
    for _l in ('1d', '1dcd'):
        for _h in (0, 1):
            TV.append(dict(cls=_c, l=_l, rlx=1.0 if _h else 1.8, change=1, hi=_h))
    TV.append(dict(cls=_c, l='1dk', rlx=1.5, w='ext', tw=1))
    TV.append(dict(cls=_c, l='1dcd', rlx=1.5, w='ext', tw=1, hi=1))
    TV.append(dict(cls=_c, l='1d', rlx=1.5, tw=1, hi=1))
    TV.append(dict(cls=_c, l='1d', rlx=1.5, hi=1, nd=1))
    TV.append(dict(cls=_c, l='1dcd', rlx=1.5, hi=1, nd=1))
    for _l, _h, _g in (('1d', 1, 1), ('1dk', 0, 0), ('1dc', 0, 0), ('1dcd', 0, 1)):
        TV.append(dict(cls=_c, l=_l, rlx=1.5, hi=_h, change=_g, chk=1))
LAY = dict(LAY)
LAY['2ds'] = ((2, 3), (2, 2), 1, 1, 1, 1)
LAY['2dcds'] = ((2, 2), (1, 2), 2, 2, 1, 2)


@reg.case('tv', TV)
def tv(c, cls, l, rlx, change=0, hi=0, w=None, tw=0, nd=0, chk=0):
    T = c.mod('sporco.admm.cbpdntv')
    np = c.np
    N, n, C, Cd, K, M = LAY[l]
    dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
    dimN = len(N)
    D = c.const(csc.vals(dsh, 5))
    S = c.real('S', ssh)
    lm, mu, r = 0.75, 0.5, 2.0
    kw = dict(RelaxParam=rlx, rho=r, HighMemSolve=bool(hi), LinSolveCheck=bool(chk))
    Wi = 1.0
    if w:
        e = csc.vals(ssh + (M,), 9) ** 2
        kw['L1Weight'] = e
        Wi = e.reshape(N + ((C,) if C > 1 else (1,)) + (K, M))
    if w and Cd > 1:
        # the coefficient array has no channel axis
        e = csc.vals(xi, 9) ** 2
        kw['L1Weight'] = Wi = e
    Wt = 1.0
    if tw:
        Wt = csc.vals((M,), 4) ** 2
        kw['TVWeight'] = Wt
    rec = cls == 'ConvBPDNRecTV'
    ysh = xi[:-1] + (M + dimN * Cd,) if rec else xi + (dimN + 1,)
    C_ = getattr(T, cls)
    opt = C_.Options(base_opt(c, ysh, **rho_opt(kw, change)))
    c.keep(D, S, opt['Y0'], opt['U0'])
    b = C_(D, S, lm, mu, opt, dimK=dimk(C, Cd, K), dimN=dimN)
    if nd:
        D = c.const(csc.vals(dsh, 15))
        b.setdict(D.reshape(di))
    Y0, U0 = opt['Y0'], opt['U0']
    if change:
        bump(b, opt)
        r *= 2.0
        U0 = U0 / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    if chk:
        b.xstep()
        c.le('solve accuracy', b.xrrs, 1e-6)
        return
    A, keep = cut(c, b, ysh)
    step(b)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    Di, Si = D.reshape(di), S.reshape(si)
    R = csc.Dmul(np, Di, X, dimN) - Si
    V = Y0 - U0
    if not rec:
        Vx, Vg = V[..., -1], [V[..., k] for k in range(dimN)]
        AX = np.stack([Wt * csc.grad(np, X, k) for k in range(dimN)] + [X], axis=-1)
        g = csc.DTmul(np, Di, R, dimN) + r * (X - Vx)
        for k in range(dimN):
            g = g + r * Wt * csc.gradT(np, AX[..., k] - Vg[k], k)
    else:
        Wd = Di * Wt
        V0, V1 = b.block_sep0(V), b.block_sep1(V)
        DX = csc.Dmul(np, Wd, X, dimN)
        G = [csc.grad(np, DX, k) for k in range(dimN)]
        AX1 = np.stack(G, axis=-1)
        AX = b.block_cat(X, AX1)
        c.eq('sep', b.block_sep1(AX), AX1)
        g = csc.DTmul(np, Di, R, dimN) + r * (X - V0)
        for k in range(dimN):
            g = g + r * csc.DTmul(np, Wd, csc.gradT(np, G[k] - V1[..., k], k), dimN)
    c.eq('xstep', g, np.zeros(xi))
    c.eq('relax', keep['AX'], rlx * AX + (1 - rlx) * Y0)
    V = A + U0
    t = mu / r
    if not rec:
        shrink(c, np, V[..., :-1], Y[..., :-1], -1 if cls == 'ConvBPDNScalarTV' else (dimN + 2, -1), t)
        c.eq('ycoef', Y[..., -1], csc.soft(np, V[..., -1], lm / r * Wi))
        c.eq('min', b.getmin(), Y[..., -1])
    else:
        shrink(c, np, b.block_sep1(V), b.block_sep1(Y), (dimN, -1), t)
        c.eq('ycoef', b.block_sep0(Y), csc.soft(np, b.block_sep0(V), lm / r * Wi))
        c.eq('min', b.getmin(), b.block_sep0(Y))
    c.eq('ustep', U, U0 + A - Y)


# ------------------------------------------------------------- inhibition

def winsum(np, h, a, N, Wn):
    """circular convolution along the first axes with a window centred at
    the origin"""
    acc = 0
    r = Wn // 2
    for j in spec.ndi((Wn,) * len(N)):
        x = a
        for k in range(len(N)):
            x = np.roll(x, j[k] - r, axis=k)
        acc = acc + h[j] * x
    return acc


@reg.case('inhib', [dict(N=(4,), M=2, K=1, Wn=3), dict(N=(4,), M=3, K=1, Wn=3, grp=2), dict(N=(4,), M=2, K=2, Wn=2),
                    dict(N=(4,), M=2, K=1, Wn=None), dict(N=(4,), M=2, K=1, Wn=3, gamma=0.0),
                    dict(N=(4,), M=2, K=1, Wn=3, mu=0.0), dict(N=(4,), M=2, K=1, Wn=3, mu=0.0, gamma=0.0),
                    dict(N=(4,), M=2, K=1, Wn=3, nonneg=1, w=1), dict(N=(3, 4), M=1, K=1, Wn=3),
                    dict(N=(4,), M=2, K=1, Wn=3, grp=0)])
def inhib(c, N, M, K, Wn, grp=1, mu=0.5, gamma=0.25, nonneg=0, w=0):
    I = c.mod('sporco.admm.cbpdnin')
    np = c.np
    dimN = len(N)
    n = (2,) * dimN
    D = c.const(csc.vals(n + (M,), 5))
    S = c.real('S', N + ((K,) if K > 1 else ()))
    xi = N + (1, K, M)
    lm, r, rlx, sm = 0.75, 2.0, 1.5, 0.75
    if grp == 2:
        Wg = c.const([[1.0, 1.0, 0.0], [0.0, 0.5, 1.0]])
    else:
        Wg = c.const([[1.0] * M])
    kw = dict(RelaxParam=rlx, rho=r, SmoothWeight=sm, NonNegCoef=bool(nonneg), MaxMainIter=2)
    wl = 1.0
    if w:
        wl = csc.vals(xi, 9) ** 2
        kw['L1Weight'] = wl
    opt = I.ConvBPDNInhib.Options(base_opt(c, xi, **kw))
    b = I.ConvBPDNInhib(D, S, Wg if grp else None, Wn, 'boxcar', lm, mu, gamma, opt, dimN=dimN)
    Xs = [c.real('X1', xi), c.real('X2', xi)]
    it = iter(Xs)

    def xs():
        # the x step is that of the parent class (P06)
        b.X = next(it).copy()
    b.xstep = xs
    step(b)
    Y, U = b.var_y(), b.var_u()
    Wl = Wn if Wn is not None else n[0]
    Wl += not Wl % 2
    import numpy
    h = numpy.ones((Wl,) * dimN)
    hs = h.copy()
    hs[(Wl // 2,) * dimN] = 0.0
    wml = np.zeros(xi)
    wms = np.zeros(xi)
    y, u = opt['Y0'], opt['U0']
    q = [[sum(Wg[g, i] * Wg[g, j] for g in range(Wg.shape[0])) if i != j else
          sum(Wg[g, i] * Wg[g, i] - Wg[g, i] for g in range(Wg.shape[0]))
          for j in range(M)] for i in range(M)]
    for x in Xs:
        ax = rlx * x + (1 - rlx) * y
        v = ax + u
        y = csc.soft(np, v, (lm * wl + mu * wml + gamma * wms) / r)
        if nonneg:
            y = np.where(y > 0, y, 0.0)
        u = v - y
        a = np.abs(x)
        if mu and grp:
            H = winsum(np, h, a, N, Wl)
            t = np.stack([sum(q[i][j] * H[..., i] for i in range(M)) for j in range(M)], axis=-1)
            wml = sm * wml + (1 - sm) * t
        if gamma:
            wms = sm * wms + (1 - sm) * winsum(np, hs, a, N, Wl)
    c.eq('ystep', Y, y)
    c.eq('ustep', U, u)


# ----------------------------------------------------- product dictionaries

BMAT = {'sq': [[1.2, 1.6], [-0.8, 0.6]],
        # U diag(2, 1) Q^T with rational orthonormal factors
        'tall': None, 'row': [[0.6, 0.8]]}


def bmat(k):
    import numpy
    from fractions import Fraction as F
    Q = numpy.array([[F(3, 5), F(-4, 5)], [F(4, 5), F(3, 5)]], dtype=object)
    U = numpy.array([[F(2, 3), F(-2, 3)], [F(1, 3), F(2, 3)], [F(2, 3), F(1, 3)]], dtype=object)
    if k == 'tall':
        return (U * numpy.array([2, 1])).dot(Q.T).astype(float)
    return numpy.array(BMAT[k])


def BX(np, B, x, ax):
    """apply the matrix to the channel axis"""
    return np.stack([sum(B[i, j] * np.take(x, j, axis=ax) for j in range(B.shape[1]))
                     for i in range(B.shape[0])], axis=ax)


PD = []
for _c in ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint'):
    for _B, _N, _K in (('sq', (4,), 1), ('tall', (4,), 1), ('row', (2,), 1), ('sq', (2, 2), 2), ('tall', (2,), 2)):
        PD.append(dict(cls=_c, B=_B, N=_N, K=_K, rlx=1.5))
    for _h in (0, 1):
        PD.append(dict(cls=_c, B='sq', N=(4,), K=1, rlx=1.8, change=1, hi=_h))
        PD.append(dict(cls=_c, B='sq', N=(4,), K=1, rlx=1.8, hi=_h, nd='D'))
        PD.append(dict(cls=_c, B='sq', N=(4,), K=1, rlx=1.8, hi=_h, nd='B'))
    PD.append(dict(cls=_c, B='sq', N=(4,), K=1, rlx=1.0, nonneg=1))
    PD.append(dict(cls=_c, B='sq', N=(4,), K=1, rlx=1.0, w=1))
for _c in ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint'):
    for _B, _K, _h in (('sq', 1, 1), ('tall', 1, 0), ('sq', 2, 0)):
        PD.append(dict(cls=_c, B=_B, N=(4,), K=_K, rlx=1.8, hi=_h, change=_h, chk=1))
PD += [dict(cls='ConvProdDictL1L1Grd', B=_B, N=(4,), K=1, rlx=1.8, msk=_m) for _B in ('sq', 'tall') for _m in ('ext', 'N')]


@reg.case('proddict_default', [dict(cls=_c) for _c in ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd',
                                                       'ConvProdDictL1L1GrdJoint')])
def proddict_default(c, cls):
    """Default options are usable."""
    P = c.mod('sporco.admm.pdcsc')
    np = c.np
    D, B, S = c.const(csc.vals((2, 2), 5)), c.const(bmat('sq')), c.real('S', (2, 2))
    b = getattr(P, cls)(D, B, S, 0.5, *(() if cls == 'ConvProdDictBPDN' else (0.25,)), dimK=0, dimN=1)
    b.xstep()
    Di = D.reshape((2, 1, 1, 2))
    R = BX(np, bmat('sq'), csc.Dmul(np, Di, b.var_x(), 1), 1) - S.reshape((2, 2, 1, 1))
    g = csc.DTmul(np, Di, BX(np, bmat('sq').T, R, 1), 1)
    X = b.var_x()
    if cls.startswith('ConvProdDictL1'):
        g = g + X + (0.25 / b.rho) * csc.gradT(np, csc.grad(np, X, 0), 0)
    else:
        g = g + b.rho * X
    c.eq('xstep', g, np.zeros((2, 2, 1, 2)))


@reg.case('proddict', PD)
def proddict(c, cls, B, N, K, rlx, change=0, hi=0, nonneg=0, w=0, msk=None, nd=None, chk=0):
    P = c.mod('sporco.admm.pdcsc')
    np = c.np
    dimN = len(N)
    n, M = (2,) * dimN, 2
    Bm = bmat(B)
    C, Cx = Bm.shape
    Bs = c.const(Bm)
    D = c.const(csc.vals(n + (M,), 5))
    ssh = N + (C,) + ((K,) if K > 1 else ())
    S = c.real('S', ssh)
    xi, si, di = N + (Cx, K, M), N + (C, K, 1), n + (1, 1, M)
    l1 = cls.startswith('ConvProdDictL1')
    joint = cls.endswith('Joint')
    lm, mu, r = 0.75, 0.5, 2.0
    kw = dict(RelaxParam=rlx, rho=r, HighMemSolve=bool(hi), NonNegCoef=bool(nonneg), LinSolveCheck=bool(chk))
    wl = 1.0
    if w:
        wl = csc.vals(xi, 9) ** 2
        kw['L1Weight'] = wl
    C_ = getattr(P, cls)
    Yd, Ud = c.real('Yd', si), c.real('Ud', si)
    Yx, Ux = c.real('Yx', xi), c.real('Ux', xi)

    def cat(a, b_):
        return np.concatenate((a.reshape(N + (-1,)), b_.reshape(N + (-1,))), axis=dimN)
    if l1:
        Y0, U0 = cat(Yd, Yx), cat(Ud, Ux)
    else:
        Y0, U0 = Yx, Ux
    o = base_opt(c, (1,), **rho_opt(kw, change))
    o['Y0'], o['U0'] = Y0, U0
    opt = C_.Options(o)
    args = (D, Bs, S, lm) + ((mu,) if l1 or joint else ())
    kws = dict(dimK=1 if K > 1 else 0, dimN=dimN)
    mk = 1.0
    if msk:
        mk = c.real('W', ssh if msk == 'ext' else N, nonneg=True, hi=2)
        kws['W'] = mk
        mk = mk.reshape(N + (1, 1, 1)) if msk == 'N' else mk.reshape(si)
    c.keep(D, Bs, S)
    b = C_(*args, opt=opt, **kws)
    if nd == 'D':
        D = c.const(csc.vals(n + (M,), 15))
        b.setdict(D=D.reshape(di))
    if nd == 'B':
        Bm = Bm[:, ::-1] * 0.5
        Bs = c.const(Bm)
        b.setdict(B=Bs)
    if change:
        bump(b, opt)
        r *= 2.0
        Ud, Ux, U0 = Ud / 2.0, Ux / 2.0, U0 / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    if chk:
        b.xstep()
        c.le('solve accuracy', b.xrrs, 1e-6)
        return
    A, keep = cut(c, b, Y0.shape)
    step(b)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    Di, Si = D.reshape(di), S.reshape(si)
    DXB = BX(np, Bm, csc.Dmul(np, Di, X, dimN), dimN)
    pr = c.mod('sporco.prox').prox_l1

    def dtb(R):
        return csc.DTmul(np, Di, BX(np, Bm.T, R, dimN), dimN)
    if not l1:
        c.eq('xstep', dtb(DXB - Si) + r * (X - Yx + Ux), np.zeros(xi))
        c.eq('relax', keep['AX'], rlx * X + (1 - rlx) * Yx)
        V = A + Ux
        if joint:
            if not nonneg:
                s = pr(V, lm / r * wl)
                nn = np.broadcast_to(np.sqrt(np.sum(s * s, axis=dimN, keepdims=True)), xi)
                c.eq('ystep', Y * nn, np.where(nn > mu / r, (nn - mu / r) * s, 0.0))
                for i in spec.ndi(xi):
                    c.implies('ystep0', nn[i] <= mu / r, Y[i] == 0.0)
            else:
                for i in spec.ndi(xi):
                    c.true('nonneg', Y[i] >= 0)
        else:
            y = csc.soft(np, V, lm / r * wl)
            if nonneg:
                y = np.where(y > 0, y, 0.0)
            c.eq('ystep', Y, y)
        c.eq('ustep', U, V - Y)
        return
    g = dtb(DXB - Yd - Si + Ud) + X - Yx + Ux
    for ax in range(dimN):
        g = g + (mu / r) * csc.gradT(np, csc.grad(np, X, ax), ax)
    c.eq('xstep', g, np.zeros(xi))
    c.eq('relax', keep['AX'], rlx * cat(DXB, X) + (1 - rlx) * cat(Yd + Si, Yx))
    V = A + U0
    nd_ = C * K
    Vd = V[..., :nd_].reshape(si)
    Vx = V[..., nd_:].reshape(xi)
    yd, yx = b.var_y0(), b.var_y1()
    c.eq('ydata', yd, csc.soft(np, Vd - Si, mk / r + 0 * Vd))
    if joint:
        if not nonneg:
            shrink(c, np, pr(Vx, 0.0), yx, dimN, lm / r)
        else:
            for i in spec.ndi(xi):
                c.true('nonneg', yx[i] >= 0)
    else:
        y = csc.soft(np, Vx, lm / r * wl)
        if nonneg:
            y = np.where(y > 0, y, 0.0)
        c.eq('ycoef', yx, y)
    c.eq('cat', Y, cat(yd, yx))
    c.eq('ustep', U, V - Y - cat(Si, np.zeros(xi)))


INTS = {'ConvBPDNScalarTV': 'cbpdntv', 'ConvBPDNVectorTV': 'cbpdntv', 'ConvBPDNRecTV': 'cbpdntv', 'ConvBPDNInhib': 'cbpdnin',
        'ConvProdDictBPDN': 'pdcsc', 'ConvProdDictBPDNJoint': 'pdcsc', 'ConvProdDictL1L1Grd': 'pdcsc', 'ConvProdDictL1L1GrdJoint': 'pdcsc'}


@reg.case('integer', [dict(cls=k, dt=d) for k in INTS for d in ('uint8', 'int64')])
def integer(c, cls, dt):
    """integer signals"""
    m = INTS[cls]
    B = getattr(c.mod('sporco.admm.' + m), cls)
    D = c.const(csc.vals((2, 2), 3))

    def make(S):
        o = B.Options({'Verbose': False, 'MaxMainIter': 1, 'AutoRho': {'Enabled': False}, 'FastSolve': True, 'rho': 1.5})
        if m == 'pdcsc':
            return B(D, c.const(csc.vals((2, 2), 7)), S, 0.3, *(() if cls == 'ConvProdDictBPDN' else (0.25,)), opt=o, dimK=0, dimN=1)
        if m == 'cbpdnin':
            return B(D, S, c.const([[1.0, 1.0]]), 3, 'boxcar', 0.3, 0.5, 0.25, o, dimN=1)
        return B(D, S, 0.3, 0.25, o, dimN=1)
    csc.intdiff(c, make, (2, 2) if m == 'pdcsc' else (2,) if m == 'cbpdntv' else (4,), dt)
