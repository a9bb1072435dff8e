"""P19: one iteration of the total variation, robust PCA, spline and
plug-and-play solvers from an arbitrary state solves the documented
subproblems, and the reported functional is the documented one."""
from sx.run import Registry
from sx import csc, spec
from checks.p06 import base_opt, step, cut, bump, rho_opt
reg = Registry()
MODULES = ['sporco.admm.tvl1', 'sporco.admm.tvl2', 'sporco.admm.rpca', 'sporco.admm.spline', 'sporco.admm.ppp',
           'sporco.pgm.ppp', 'sporco.signal', 'sporco.prox']
BOUNDS = ('one iteration from an arbitrary (symbolic) primal/dual state and signal, preceded in some cases by a penalty '
          'parameter change; arrays of at most 12 samples in up to 3 dimensions; fixed rational parameters, weights and '
          'blur kernels; plug-and-play solvers with arbitrary (symbolic) results of the user functions')

DEN = ('TVL1Denoise', 'TVL2Denoise')
DEC = ('TVL1Deconv', 'TVL2Deconv')
LM = 0.75


def zgrad(np, X, ax):
    """forward difference, zero at the end"""
    n = X.shape[ax]
    a = np.moveaxis(X, ax, 0)
    out = [a[i + 1] - a[i] for i in range(n - 1)] + [a[0] * 0.0]
    return np.moveaxis(np.stack(out), 0, ax)


def zgradT(np, X, ax):
    n = X.shape[ax]
    a = np.moveaxis(X, ax, 0)
    out = []
    for i in range(n):
        v = a[0] * 0.0
        if i > 0:
            v = v + a[i - 1]
        if i < n - 1:
            v = v - a[i]
        out.append(v)
    return np.moveaxis(np.stack(out), 0, ax)


class TV:
    def __init__(self, c, cls, shape, axes, caxis=None, rlx=1.5, rho=2.0, change=0, wdf=0, wtv=0, cx=0, opts={}, fixS=0, Y0only=0, fixU=0,
                 ker=None):
        self.c = c
        np = self.np = c.np
        self.l1 = cls.startswith('TVL1')
        self.den = cls in DEN
        T = c.mod('sporco.admm.tvl1' if self.l1 else 'sporco.admm.tvl2')
        C_ = getattr(T, cls)
        mk = c.cplx if cx else c.real
        self.mk = mk
        self.axes, self.shape = axes, shape
        self.sax = (-1,) if caxis is None else (caxis, -1)
        self.S = c.const(csc.vals(shape, 3)) if fixS else mk('S', shape)
        self.ysh = shape + (len(axes) + (1 if self.l1 else 0),)
        kw = dict(RelaxParam=rlx, rho=rho)
        kw.update(opts)
        self.Wdf = self.Wtv = 1.0
        if wdf:
            self.Wdf = csc.vals(shape, 9) ** 2 if wdf == 1 else 0.5
            kw['DFidWeight'] = self.Wdf
        if wtv:
            wsh = list(shape)
            if caxis is not None:
                wsh[caxis] = 1
            self.Wtv = csc.vals(wsh, 4) ** 2 if wtv == 1 else 0.5
            kw['TVWeight'] = self.Wtv
        self.Wtvn = self.Wtv[..., None] if wtv == 1 else self.Wtv
        o = base_opt(c, self.ysh, **rho_opt(kw, change))
        o['Y0'], o['U0'] = mk('Y0', self.ysh), mk('U0', self.ysh)
        if fixU:
            o['U0'] = c.const(csc.vals(self.ysh, 8))
        if fixU == 2:
            o['Y0'] = c.const(csc.vals(self.ysh, 6))
        if Y0only:
            del o['U0']
        self.opt = C_.Options(o)
        self.r = rho if rho is not None else 2 * LM + 0.1
        args = [self.S, LM]
        if not self.den:
            kn = [1] * len(shape)
            for k, a in enumerate(axes):
                kn[a] = min(2, shape[a])
            if ker:
                kn = list(ker)
            self.ker = csc.vals(kn, 5)
            if ker:
                kn += [1] * (len(shape) - len(kn))
            self.kern = self.ker.reshape(kn)
            args = [c.const(self.ker)] + args
        c.keep(self.S, self.opt['Y0'], self.opt['U0'] if not Y0only else self.S)
        self.b = C_(*args, opt=self.opt, axes=axes, caxis=caxis)
        self.Y0, self.U0 = self.opt['Y0'], self.opt['U0']
        if change:
            bump(self.b, self.opt)
            self.r *= 2.0
            self.U0 = self.U0 / 2.0
            self.b.opt['AutoRho', 'Enabled'] = False

    def G(self, X):
        g = zgrad if self.den else csc.grad
        out = [g(self.np, X, a) for a in self.axes]
        if self.l1:
            out.append(X)
        return self.np.stack(out, axis=-1)

    def GT(self, Y):
        g = zgradT if self.den else csc.gradT
        out = 0
        for k, a in enumerate(self.axes):
            out = out + g(self.np, Y[..., k], a)
        if self.l1:
            out = out + Y[..., -1]
        return out

    def cv(self):
        """constant of the constraint"""
        z = self.np.zeros(self.ysh, dtype=self.S.dtype)
        if self.l1:
            z[..., -1] = self.S
        return z

    def blur(self, X):
        acc = 0
        for j in spec.ndi(self.kern.shape):
            acc = acc + self.kern[j] * self.np.roll(X, j, axis=tuple(range(X.ndim)))
        return acc

    def blurT(self, X):
        acc = 0
        for j in spec.ndi(self.kern.shape):
            acc = acc + self.kern[j] * self.np.roll(X, tuple(-q for q in j), axis=tuple(range(X.ndim)))
        return acc


LAYS = [dict(shape=(2, 3), axes=(0, 1)), dict(shape=(3,), axes=(0,)), dict(shape=(2, 3), axes=(1,)), dict(shape=(2, 2, 2), axes=(1, 2)),
        dict(shape=(2, 2, 2), axes=(0, 1), caxis=2), dict(shape=(2, 3, 2), axes=(0, 1)), dict(shape=(2, 2, 2), axes=(0, 2)),
        dict(shape=(2, 2, 2), axes=(1, 2), caxis=0), dict(shape=(2, 2, 2), axes=(0, 1, 2)), dict(shape=(2, 2, 2), axes=(0, 2), caxis=1)]
VAR = [dict(shape=(2, 3), axes=(0, 1), rlx=1.0, change=1), dict(shape=(2, 3), axes=(0, 1), wtv=1), dict(shape=(2, 2, 2), axes=(0, 1), caxis=2, wtv=1),
       dict(shape=(2, 2), axes=(0, 1), wtv=2), dict(shape=(2, 2), axes=(0, 1), cx=1), dict(shape=(3,), axes=(0,), cx=1, wtv=1),
       dict(shape=(2, 3), axes=(0, 1), rho=None, rlx=1.5)]
IT = [dict(cls=_c, **v) for _c in DEN + DEC for v in LAYS + VAR]
for _c in ('TVL1Denoise', 'TVL2Denoise', 'TVL1Deconv'):
    IT += [dict(cls=_c, shape=(2, 3), axes=(0, 1), wdf=1), dict(cls=_c, shape=(2, 2), axes=(0, 1), wdf=2, cx=1),
           dict(cls=_c, shape=(2, 2, 2), axes=(0, 1), caxis=2, wdf=1, wtv=1, change=1)]
IT += [dict(cls=_c, shape=(2, 3), axes=(0, 1), n=n) for _c in DEN for n in (1, 3)]
IT += [dict(cls=_c, shape=s, axes=a) for _c in DEN for s, a in (((1, 3), (0, 1)), ((3, 1), (0, 1)), ((4,), (0,)), ((2,), (0,)))]
IT += [dict(cls=_c, shape=(2, 2, 2), axes=(0, 1), ker=k) for _c in DEC for k in ((2, 1), (1, 2), (2, 2))]


@reg.case('tv', IT)
def tv(c, cls, shape, axes, n=2, **kw):
    np = c.np
    o = {'MaxGSIter': n, 'GSTol': -1.0} if cls in DEN else {}
    if kw.get('rho', 1.0) is None:
        f = TV(c, cls, shape, axes, opts=o, **kw)
        c.eq('default penalty', f.b.rho, 2.0 * LM + 0.1)
        return
    f = TV(c, cls, shape, axes, opts=o, **kw)
    b, r = f.b, f.r
    A, keep = cut(c, b, f.ysh)
    if cls in DEN:
        X0 = f.mk('X0', shape)
        b.X = X0.copy()
        # the relative residual (decided below) is not used to stop here
        c.mod('sporco.admm.tvl1' if f.l1 else 'sporco.admm.tvl2').rrs = lambda a, d: 1.0
    step(b)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    c.eq('returned', b.getmin(), X)
    V = f.Y0 - f.U0
    cv = f.cv()
    if cls in DEN:
        # sweeps of the relaxation scaled by the diagonal of the system
        W2 = f.Wdf ** 2 if not f.l1 else 0.0
        rr = r if not f.l1 else 1.0

        def M(x):
            return W2 * x + rr * f.GT(f.G(x))
        dg = np.zeros(shape)
        for i in spec.ndi(shape):
            nb = sum((1 if i[a] > 0 else 0) + (1 if i[a] < shape[a] - 1 else 0) for a in axes)
            w = W2 if not hasattr(W2, 'shape') or W2.ndim == 0 else W2[i]
            dg[i] = w + rr * (nb + (1 if f.l1 else 0))
        rhs = W2 * f.S + rr * f.GT(V + cv)
        x = X0
        for _ in range(n):
            x = x + (rhs - M(x)) / dg
        c.eq('xstep', X, x)
        c.true('sweeps', b.xs[0] == n)
    if cls == 'TVL2Deconv':
        g = f.blurT(f.blur(X) - f.S) + r * f.GT(f.G(X) - V)
        c.eq('xstep', g, np.zeros(shape))
    if cls == 'TVL1Deconv':
        GX = f.G(X)
        HX = f.blur(X)
        g = f.blurT(HX - V[..., -1] - f.S)
        for k, a in enumerate(axes):
            g = g + csc.gradT(np, GX[..., k] - V[..., k], a)
        c.eq('xstep', g, np.zeros(shape))
    AX = f.G(X)
    if cls == 'TVL1Deconv':
        AX[..., -1] = f.blur(X)
    rlx = kw.get('rlx', 1.5)
    c.eq('relax', keep['AX'], rlx * AX + (1 - rlx) * (f.Y0 + cv))
    V = A + f.U0
    Vg, Yg = (V[..., :-1], Y[..., :-1]) if f.l1 else (V, Y)
    gshrink(c, np, Vg, Yg, f.sax, LM / r * f.Wtvn)
    if f.l1:
        v = V[..., -1] - f.S
        t = f.Wdf / r
        if kw.get('cx'):
            gshrink(c, np, v[..., None], Y[..., -1:], (-1,), (t + np.zeros(shape))[..., None])
        else:
            c.eq('ydata', Y[..., -1], csc.soft(np, v, t))
    c.eq('ustep', U, f.U0 + A - Y - cv)


def gshrink(c, np, V, Y, ax, t):
    n = np.broadcast_to(np.sqrt(np.sum(spec.abs2(np, V), axis=ax, keepdims=True)), V.shape)
    t = np.broadcast_to(t + np.zeros((1,) * V.ndim), V.shape)
    c.eq('ygroup', Y * n, np.where(n > t, (n - t) * V, 0.0))
    for i in spec.ndi(V.shape):
        c.implies('ygroup0', n[i] <= t[i], abs(Y[i]) == 0.0)


# the solution of the linear system is a fixed point of the sweeps, and ends them
@reg.case('fixed_point', [dict(cls=_c, **v) for _c in DEN for v in (dict(shape=(2, 3), axes=(0, 1)), dict(shape=(3,), axes=(0,)),
          dict(shape=(2, 2), axes=(1,)), dict(shape=(2, 2), axes=(0, 1), cx=1))] + [dict(cls='TVL2Denoise', shape=(2, 3), axes=(0, 1), wdf=2)])
def fixed_point(c, cls, shape, axes, **kw):
    np = c.np
    f = TV(c, cls, shape, axes, opts={'MaxGSIter': 3, 'GSTol': 0.0}, **kw)
    b, r = f.b, f.r
    X0 = f.mk('X0', shape)
    V = f.Y0 - f.U0
    # choose the signal so that X0 solves the system
    if f.l1:
        S = f.GT(f.G(X0) - V)
    else:
        S = X0 + r * f.GT(f.G(X0) - V) / f.Wdf ** 2
    b.S = S
    b.X = X0.copy()
    step(b)
    c.eq('solution kept', b.var_x(), X0)
    c.eq('sweeps', b.xs[0], 1)
    c.eq('relative residual', b.xs[1], 0.0)


@reg.case('relres', [dict(cls=_c, shape=(2,), axes=(0,)) for _c in DEN] + [dict(cls=_c, shape=(2,), axes=(0,), chk=1) for _c in DEC])
def relres(c, cls, shape, axes, chk=0):
    """reported accuracy of the x step"""
    np = c.np
    o = {'MaxGSIter': 1} if cls in DEN else {'LinSolveCheck': True}
    f = TV(c, cls, shape, axes, opts=o, fixS=1, fixU=2 if cls in DEN else 1)
    b, r = f.b, f.r
    if cls in DEN:
        b.X = c.real('X0', shape)
    step(b, True)
    X = b.var_x()
    V = f.Y0 - f.U0
    if cls in DEN:
        rhs = f.GT(V + f.cv()) if f.l1 else f.S + r * f.GT(V)
        ax = f.GT(f.G(X)) if f.l1 else X + r * f.GT(f.G(X))
        n2 = lambda v: np.sum(v * v)
        a, d, e = n2(ax), n2(rhs), n2(ax - rhs)
        m = np.where(a > d, a, d)
        q = b.itstat[0].GSRelRes
        c.eq('sweeps', b.itstat[0].GSIter, 1)
        c.true('sign', q >= 0)
        c.eq('relative residual', q * q * m, np.where(m > 0, e, q * q * m))
    else:
        c.eq('relative residual', b.itstat[0].XSlvRelRes, 0.0)


# ------------------------------------------------------------- functional

OB = []
for _c in DEN + DEC:
    for _g in (True, False):
        OB += [dict(cls=_c, shape=(2, 2), axes=(0, 1), g=_g), dict(cls=_c, shape=(2, 2, 2), axes=(0, 1), caxis=2, g=_g, wtv=1),
               dict(cls=_c, shape=(2, 2), axes=(0, 1), wtv=1, g=_g), dict(cls=_c, shape=(2, 2), axes=(1,), g=_g),
               dict(cls=_c, shape=(2,), axes=(0,), cx=1, g=_g), dict(cls=_c, shape=(2, 2, 2), axes=(0, 1), g=_g),
               dict(cls=_c, shape=(2, 2, 2), axes=(1, 2), caxis=0, g=_g), dict(cls=_c, shape=(2, 3), axes=(0, 1), g=_g, wtv=2)]
        if _c != 'TVL2Deconv':
            OB += [dict(cls=_c, shape=(2, 2), axes=(0, 1), wdf=1, wtv=1, g=_g), dict(cls=_c, shape=(2, 2), axes=(0, 1), wdf=2, g=_g)]


@reg.case('objective', OB)
def objective(c, cls, shape, axes, g, **kw):
    np = c.np
    o = {'gEvalY': g}
    f = TV(c, cls, shape, axes, opts=o, **kw)
    b = f.b
    Y1, X1 = f.mk('Y1', f.ysh), f.mk('X1', shape)

    def ys():
        b.Y = Y1.copy()

    def xs():
        b.X = X1.copy()
        b.xs, b.xrrs = (0, 0.0), None
        if cls in DEC:
            b.Xf = b.fftn(b.X, axes=axes) if hasattr(b, 'fftn') else None
    b.ystep, b.xstep = ys, xs
    step(b, True)
    st = b.itstat[0]
    AX = f.G(X1)
    if cls == 'TVL1Deconv':
        AX[..., -1] = f.blur(X1)
    gv = Y1 if g else AX - f.cv()
    a2 = spec.abs2(np, gv[..., :-1] if f.l1 else gv)
    n = np.sqrt(np.sum(a2, axis=f.sax, keepdims=True))
    reg_ = np.sum(f.Wtvn * n)
    if f.l1:
        dfd = np.sum(f.Wdf * np.sqrt(spec.abs2(np, gv[..., -1])))
    else:
        R = (X1 if f.den else f.blur(X1)) - f.S
        dfd = 0.5 * spec.nrm2(np, f.Wdf * R)
    c.eq('DFid', st.DFid, dfd)
    c.eq('RegTV', st.RegTV, reg_)
    c.eq('ObjFun', st.ObjFun, dfd + LM * reg_)


# ------------------------------------------- operators, residuals, warm start

@reg.case('operators', [dict(cls=_c, **v) for _c in DEN + DEC for v in LAYS + [dict(shape=(2, 2), axes=(0, 1), cx=1)]])
def operators(c, cls, shape, axes, **kw):
    np = c.np
    f = TV(c, cls, shape, axes, **kw)
    b = f.b
    X, Y = f.mk('X', shape), f.mk('Y', f.ysh)
    c.keep(X, Y)
    AX = f.G(X)
    if cls == 'TVL1Deconv':
        AX[..., -1] = f.blur(X)
    c.eq('A', b.cnst_A(X), AX)
    c.eq('adjoint', np.sum(np.conj(b.cnst_AT(Y)) * X), np.sum(np.conj(Y) * AX))
    c.eq('B', b.cnst_B(Y), -Y)
    c.eq('c', b.cnst_c(), f.cv())
    c.unchanged()


@reg.case('residuals', [dict(cls=_c, rlx=q) for _c in DEN + DEC for q in (1.0, 1.5)], limit=120)
def residuals(c, cls, rlx):
    np = c.np
    rho = 2.0
    f = TV(c, cls, (2, 2), (0, 1), rlx=rlx, opts={'AutoRho': {'Enabled': False, 'StdResiduals': True}, 'AbsStopTol': 0.25, 'RelStopTol': 0.5})
    b = f.b
    Y1 = c.real('Y1', f.ysh)
    b.ystep = lambda: setattr(b, 'Y', Y1.copy())
    b.rsdl_rn = lambda AX, Y: 2.0
    b.rsdl_sn = lambda U: 0.5
    got = []
    orig = b.compute_residuals

    def comp():
        got.append(orig())
        return 1.0, 1.0, 0.5, 0.5
    b.compute_residuals = comp
    b.eval_objfn = lambda: (0.0, 0.0, 0.0)
    if cls in DEN:
        X1 = c.real('X1', (2, 2))
        b.xs = (1, 0.0)
        b.xstep = lambda: setattr(b, 'X', X1.copy())
    b.solve()
    r, s, ep, ed = got[0]
    X, U = b.var_x(), b.var_u()
    AX = f.G(X)
    if cls == 'TVL1Deconv':
        AX[..., -1] = f.blur(X)
    cv = f.cv()
    nrm = lambda v: np.sqrt(np.sum(v * v))
    c.eq('primal', r, nrm(AX - Y1 - cv))
    AT = b.cnst_AT
    if not f.l1:
        c.eq('dual', s, rho * nrm(AT(f.Y0 - Y1)))
    elif rlx == 1.0 and cls in DEC:
        c.eq('dual', s, rho * nrm(AT(f.Y0 - Y1)))
    else:
        # no f term: the vector A^T u, the same when the x step is exact
        c.eq('dual', s, rho * nrm(AT(U)))
    c.eq('eps primal', ep, np.sqrt(float(len(list(spec.ndi(f.ysh))))) * 0.25 + 0.5 * 2.0)
    c.eq('eps dual', ed, 2.0 * 0.25 + 0.5 * 0.5)


WS = [dict(cls=_c, **v) for _c in DEN + DEC for v in (dict(shape=(2, 2), axes=(0, 1)), dict(shape=(2, 2), axes=(0, 1), cx=1),
      dict(shape=(2, 1, 2), axes=(0, 1), caxis=2), dict(shape=(2, 2), axes=(1,)), dict(shape=(2, 2), axes=(0, 1), wtv=1))]
WS += [dict(cls=_c, shape=(2, 2), axes=(0, 1), wdf=1) for _c in ('TVL1Denoise', 'TVL1Deconv')]


@reg.case('warm_start', WS)
def warm_start(c, cls, shape, axes, **kw):
    """with only the primal variable given, the dual variable is a
    subgradient of the regularisation term at it (divided by rho)"""
    np = c.np
    f = TV(c, cls, shape, axes, Y0only=1, **kw)
    U, Y = f.b.var_u(), f.opt['Y0']
    c.true('shape', tuple(U.shape) == f.ysh)
    c.eq('primal', f.b.var_y(), Y)
    Yg, Ug = (Y[..., :-1], U[..., :-1]) if f.l1 else (Y, U)
    n = np.broadcast_to(np.sqrt(np.sum(spec.abs2(np, Yg), axis=f.sax, keepdims=True)), Yg.shape)
    t = np.broadcast_to(LM / f.r * f.Wtvn + np.zeros((1,) * Yg.ndim), Yg.shape)
    c.eq('subgradient', Ug * n, np.where(n > 0, t * Yg, Ug * n))
    if f.l1:
        y, u = Y[..., -1], U[..., -1]
        n = np.sqrt(spec.abs2(np, y))
        t = np.broadcast_to(f.Wdf / f.r + np.zeros((1,) * y.ndim), y.shape)
        c.eq('subgradient data', u * n, np.where(n > 0, t * y, u * n))


# -------------------------------------------------------------- robust PCA

RP = [dict(shape=s, rlx=r) for s in ((2, 2), (3, 2), (2, 3), (1, 2)) for r in (1.0, 1.5)] + [dict(shape=(2, 2), change=1), dict(shape=(4, 1), dflt=1)]


@reg.case('rpca', RP)
def rpca(c, shape, rlx=1.5, change=0, dflt=0):
    np = c.np
    R = c.mod('sporco.admm.rpca').RobustPCA
    S = c.real('S', shape)
    r = 2.0
    opt = R.Options(base_opt(c, shape, **rho_opt(dict(RelaxParam=rlx, rho=r), change)))
    c.keep(S, opt['Y0'], opt['U0'])
    b = R(S, None if dflt else LM, opt)
    lm = 0.5 if dflt else LM
    Y0, U0 = opt['Y0'], opt['U0']
    if change:
        bump(b, opt)
        r, U0 = 2 * r, U0 / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    A, keep = cut(c, b, shape)
    ret = step(b)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    c.eq('returned', ret[0], X)
    c.eq('returned', ret[1], Y)
    # prox of the nuclear norm (decided by P01): soft thresholded singular values
    u, s, v = np.linalg.svd(S - Y0 - U0, full_matrices=False)
    t = np.where(s > 1 / r, s - 1 / r, 0.0)
    c.eq('xstep', X, (u * t).dot(v))
    c.eq('relax', keep['AX'], rlx * X + (1 - rlx) * (S - Y0))
    c.eq('ystep', Y, csc.soft(np, S - A - U0, lm / r))
    c.eq('ustep', U, U0 + A + Y - S)


@reg.case('rpca_objective', [dict(fx=a, gy=g, shape=s) for a in (True, False) for g in (True, False) for s in ((2, 2), (1, 3))])
def rpca_objective(c, fx, gy, shape):
    np = c.np
    R = c.mod('sporco.admm.rpca').RobustPCA
    S = c.real('S', shape)
    opt = R.Options(base_opt(c, shape, rho=2.0, fEvalX=fx, gEvalY=gy, RelaxParam=1.0))
    b = R(S, LM, opt)
    Y1 = c.real('Y1', shape)

    def ys():
        b.Y = Y1.copy()
    b.ystep = ys
    step(b, True)
    X = b.var_x()
    st = b.itstat[0]
    if fx:
        # the singular values of X are the thresholded ones of the x step
        u, s, v = np.linalg.svd(S - opt['Y0'] - opt['U0'], full_matrices=False)
        nn = np.sum(np.where(s > 0.5, s - 0.5, 0.0))
    else:
        nn = np.sum(np.linalg.svd(S - Y1, full_matrices=False)[1])
    l1 = np.sum(np.abs(Y1 if gy else S - X))
    c.eq('NrmNuc', st.NrmNuc, nn)
    c.eq('NrmL1', st.NrmL1, l1)
    c.eq('Cnstr', st.Cnstr, np.sqrt(np.sum((X + Y1 - S) ** 2)))
    c.eq('ObjFun', st.ObjFun, nn + LM * l1)


@reg.case('rpca_start', [dict(shape=(2, 2))])
def rpca_start(c, shape):
    np = c.np
    R = c.mod('sporco.admm.rpca').RobustPCA
    S, Y0 = c.real('S', shape), c.real('Y0', shape)
    b = R(S, LM, R.Options({'Y0': Y0, 'rho': 2.0, 'Verbose': False}))
    U = b.var_u()
    c.eq('primal', b.var_y(), Y0)
    for i in spec.ndi(shape):
        # x + y = s: -rho u is a subgradient of lambda ||y||_1
        c.implies('subgradient', Y0[i] > 0, -2.0 * U[i] == LM)
        c.implies('subgradient', Y0[i] < 0, -2.0 * U[i] == -LM)
        c.true('subgradient', abs(2.0 * U[i]) <= LM)


# ------------------------------------------------------------------ splines

def lap(np, X, axes):
    """second difference with symmetric boundaries"""
    out = 0
    for ax in axes:
        out = out + zgradT(np, zgrad(np, X, ax), ax)
    return -out


SP = [dict(shape=(3,), axes=(0,)), dict(shape=(2, 3), axes=(0, 1)), dict(shape=(3, 2), axes=(1,)),
      dict(shape=(2, 3), axes=(0, 1), change=1), dict(shape=(3, 2), axes=(0, 1), wdf=1), dict(shape=(2, 2, 2), axes=(0, 2)),
      dict(shape=(3, 2), axes=(0, 1), wdf=2, change=1), dict(shape=(2, 3, 2), axes=(1, 2)), dict(shape=(1, 3), axes=(0, 1)), dict(shape=(2, 2), axes=(0, 1))]



@reg.case('spline', SP)
def spline(c, shape, axes, rlx=1.5, change=0, wdf=0):
    np = c.np
    L = c.mod('sporco.admm.spline').SplineL1
    S = c.real('S', shape)
    r = 2.0
    kw = dict(RelaxParam=rlx, rho=r, LinSolveCheck=True)
    W = 1.0
    if wdf:
        W = csc.vals(shape, 9) ** 2 if wdf == 1 else 0.5
        kw['DFidWeight'] = W
    opt = L.Options(base_opt(c, shape, **rho_opt(kw, change)))
    c.keep(S, opt['Y0'], opt['U0'])
    b = L(S, LM, opt, axes)
    Y0, U0 = opt['Y0'], opt['U0']
    if change:
        bump(b, opt)
        r, U0 = 2 * r, U0 / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    A, keep = cut(c, b, shape)
    ret = step(b)
    c.unchanged()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    c.eq('returned', ret, X)
    g = r * (X - Y0 - S + U0) + LM * lap(np, lap(np, X, axes), axes)
    c.eq('xstep', g, np.zeros(shape))
    c.eq('accuracy', b.xrrs, 0.0)
    c.eq('relax', keep['AX'], rlx * X + (1 - rlx) * (Y0 + S))
    c.eq('ystep', Y, csc.soft(np, A - S + U0, W / r))
    c.eq('ustep', U, U0 + A - Y - S)


@reg.case('spline_objective', [dict(shape=s, axes=a, g=g, wdf=w) for s, a in (((3,), (0,)), ((2, 3), (0, 1)), ((2, 3), (1,)), ((2, 2), (0, 1)))
                               for g in (True, False) for w in (0, 1)])
def spline_objective(c, shape, axes, g, wdf):
    np = c.np
    L = c.mod('sporco.admm.spline').SplineL1
    S = c.real('S', shape)
    W = csc.vals(shape, 9) ** 2 if wdf else 1.0
    opt = L.Options(base_opt(c, shape, rho=2.0, gEvalY=g, DFidWeight=W))
    b = L(S, LM, opt, axes)
    X1, Y1 = c.real('X1', shape), c.real('Y1', shape)

    def xs():
        b.X, b.xrrs = X1.copy(), None
    b.xstep = xs
    b.ystep = lambda: setattr(b, 'Y', Y1.copy())
    step(b, True)
    st = b.itstat[0]
    v = Y1 if g else X1 - S
    dfd = np.sum(np.abs(W * v))
    rg = 0.5 * np.sum(lap(np, X1, axes) ** 2)
    c.eq('DFid', st.DFid, dfd)
    c.eq('Reg', st.Reg, rg)
    c.eq('ObjFun', st.ObjFun, dfd + LM * rg)


@reg.case('spline_start', [dict(wdf=w) for w in (0, 1)])
def spline_start(c, wdf):
    np = c.np
    L = c.mod('sporco.admm.spline').SplineL1
    shape = (2, 2)
    S, Y0 = c.real('S', shape), c.real('Y0', shape)
    W = csc.vals(shape, 9) ** 2 if wdf else np.ones(shape)
    b = L(S, LM, L.Options({'Y0': Y0, 'rho': 2.0, 'Verbose': False, 'DFidWeight': W}))
    U = b.var_u()
    c.eq('primal', b.var_y(), Y0)
    for i in spec.ndi(shape):
        c.implies('subgradient', Y0[i] > 0, 2.0 * U[i] == W[i])
        c.implies('subgradient', Y0[i] < 0, 2.0 * U[i] == -W[i])
        c.true('subgradient', abs(2.0 * U[i]) <= W[i])


# ----------------------------------------------------- plug and play priors

class Fn:
    """user function whose results are arbitrary"""

    def __init__(self, c, tag, shape=None, log=None):
        self.c, self.tag, self.shape, self.args, self.log = c, tag, shape, [], log

    def __call__(self, *a):
        self.args.append([x.copy() if hasattr(x, 'copy') else x for x in a])
        if self.log is not None:
            self.log.append(self.tag)
        v = self.c.real('%s_%d' % (self.tag, len(self.args)), () if self.shape is None else self.shape)
        return v.copy() if self.shape is not None else v


@reg.case('ppp', [dict(sub=s, n=n, rlx=r, change=q) for s in (0, 1) for n, r, q in ((1, 1.0, 0), (2, 1.5, 0), (1, 1.5, 1))])
def ppp(c, sub, n, rlx, change):
    """plug-and-play ADMM"""
    np = c.np
    P = c.mod('sporco.admm.ppp')
    shape = (2, 2)
    f, pf, pg = Fn(c, 'f'), Fn(c, 'proxf', shape), Fn(c, 'proxg', shape)
    r = 2.0
    C_ = P.GenericPPP if sub else P.PPP
    kw = rho_opt(dict(RelaxParam=rlx, rho=r, MaxMainIter=n, DataType=np.float64), change)
    opt = C_.Options(base_opt(c, shape, **kw))
    c.keep(opt['Y0'], opt['U0'])
    if sub:
        class Mine(P.GenericPPP):
            def f(self, X):
                return f(X)

            def proxf(self, X, rho):
                return pf(X, rho)

            def proxg(self, X, rho):
                return pg(X, rho)
        b = Mine(shape, opt)
    else:
        b = P.PPP(shape, f, pf, pg, opt)
    Y, U = opt['Y0'].copy(), opt['U0'].copy()
    if change:
        bump(b, opt)
        r, U = 2 * r, U / 2.0
        b.opt['AutoRho', 'Enabled'] = False
    ret = step(b, True)
    c.unchanged()
    for k in range(n):
        x, y = c.real('proxf_%d' % (k + 1), shape), c.real('proxg_%d' % (k + 1), shape)
        c.eq('proxf argument', pf.args[k][0], Y - U)
        c.eq('proxf penalty', pf.args[k][1], r)
        ax = rlx * x + (1 - rlx) * Y
        c.eq('proxg argument', pg.args[k][0], ax + U)
        c.eq('proxg penalty', pg.args[k][1], r)
        Y, U = y, U + ax - y
        c.eq('functional argument', f.args[k][0], x)
        c.eq('functional', b.itstat[k].FVal, c.real('f_%d' % (k + 1)))
    c.true('calls', len(pf.args) == n and len(pg.args) == n)
    c.eq('X', b.var_x(), c.real('proxf_%d' % n, shape))
    c.eq('Y', b.var_y(), Y)
    c.eq('U', b.var_u(), U)
    c.eq('result', ret, c.real('proxf_%d' % n, shape))


@reg.case('ppp_consensus', [dict(Nb=Nb, n=n, g=g, mu=m, rlx=r) for Nb, n, g, m, r in (
    (2, 1, 0, 0, 1.0), (2, 1, 1, 0, 1.5), (3, 1, 0, 1, 1.5), (2, 2, 1, 1, 1.0), (1, 1, 1, 0, 1.5), (2, 2, 1, 1, 1.5))])
def ppp_consensus(c, Nb, n, g, mu, rlx):
    """plug-and-play consensus equilibrium"""
    np = c.np
    P = c.mod('sporco.admm.ppp')
    shape = (2,)
    pf = [Fn(c, 'proxf%d' % i, shape) for i in range(Nb)]
    pg = Fn(c, 'proxg', shape)
    r = 2.0
    m = [0.5, 0.25, 2.0][:Nb] if mu else [1.0] * Nb
    o = base_opt(c, shape, ushape=shape + (Nb,), RelaxParam=rlx, rho=r, MaxMainIter=n, DataType=np.float64)
    b = P.PPPConsensus(shape, tuple(pf), pg if g else None, m if mu else None, P.PPPConsensus.Options(o))
    Y, U = b.opt['Y0'].copy(), b.opt['U0'].copy()
    b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    b.solve()
    for k in range(n):
        X = np.stack([c.real('proxf%d_%d' % (i, k + 1), shape) for i in range(Nb)], axis=-1)
        for i in range(Nb):
            c.eq('prox argument', pf[i].args[k][0], Y - U[..., i])
            c.eq('prox penalty', pf[i].args[k][1], r)
        ax = rlx * X + (1 - rlx) * Y[..., None]
        # weighted average of the blocks
        v = sum(m[i] * (ax[..., i] + U[..., i]) for i in range(Nb)) / sum(m)
        if g:
            c.eq('proxg argument', pg.args[k][0], v)
            c.eq('proxg penalty', pg.args[k][1], r * sum(m))
            Yn = c.real('proxg_%d' % (k + 1), shape)
        else:
            Yn = v
        U = U + ax - Yn[..., None]
        Y = Yn
    c.eq('Y', b.var_y(), Y)
    c.eq('U', b.var_u(), U)


@reg.case('ppp_pgm', [dict(sub=s, n=n) for s in (0, 1) for n in (1, 2, 3)])
def ppp_pgm(c, sub, n):
    """plug-and-play proximal gradient"""
    np = c.np
    P = c.mod('sporco.pgm.ppp')
    shape = (2, 2)
    f, gf, pg = Fn(c, 'f'), Fn(c, 'gradf', shape), Fn(c, 'proxg', shape)
    L = 4.0
    C_ = P.GenericPPP if sub else P.PPP
    X0 = c.real('X0', shape)
    opt = C_.Options({'Verbose': False, 'MaxMainIter': n, 'X0': X0, 'L': L, 'RelStopTol': -1.0, 'DataType': np.float64})
    c.keep(X0)
    if sub:
        class Mine(P.GenericPPP):
            def f(self, X):
                return f(X)

            def gradf(self, X):
                return gf(X)

            def proxg(self, X, l):
                return pg(X, l)
        b = Mine(shape, opt)
    else:
        b = P.PPP(shape, f, gf, pg, opt)
    ret = b.solve()
    c.unchanged()
    X, Y, t = X0, X0, 1.0
    for k in range(n):
        c.eq('gradient point', gf.args[k][0], Y)
        c.eq('prox argument', pg.args[k][0], Y - c.real('gradf_%d' % (k + 1), shape) / L)
        c.eq('prox step', pg.args[k][1], L)
        Xn = c.real('proxg_%d' % (k + 1), shape)
        c.eq('functional argument', f.args[k][0], Xn)
        c.eq('functional', b.itstat[k].FVal, c.real('f_%d' % (k + 1)))
        c.eq('residual', b.itstat[k].Rsdl, np.sqrt(np.sum((Xn - Y) ** 2)))
        t1 = 0.5 * (1 + np.sqrt(1 + 4 * t ** 2))
        Y = Xn + (t - 1) / t1 * (Xn - X)
        X, t = Xn, t1
    c.eq('result', ret, X)
    c.eq('X', b.var_x(), X)


@reg.case('integer', [dict(cls=k, dt=d) for k in ('TVL1Denoise', 'TVL2Denoise', 'TVL1Deconv', 'TVL2Deconv', 'SplineL1') for d in ('uint8', 'int64')])
def integer(c, cls, dt):
    """integer signals"""
    B = getattr(c.mod('sporco.admm.' + ('spline' if cls == 'SplineL1' else cls[:4].lower())), cls)
    A = c.const(csc.vals((2, 1), 3))

    def make(S):
        o = {'Verbose': False, 'MaxMainIter': 1, 'AutoRho': {'Enabled': False}, 'FastSolve': True, 'rho': 1.5}
        if cls.endswith('Denoise'):
            o['MaxGSIter'] = 2
        return B(*((A,) if cls.endswith('Deconv') else ()), S, 0.3, opt=B.Options(o))
    csc.intdiff(c, make, (2, 2), dt)
