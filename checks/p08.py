"""P08: the generic ADMM framework (main loop, relaxation, dual update,
residuals and tolerances, stopping, penalty parameter adaptation, statistics,
callback, continuation) for user-defined problems."""
from sx.run import Registry
from sx import csc
from checks.p21 import build, HDR
reg = Registry()
MODULES = ['sporco.admm.admm', 'sporco.common', 'sporco.cdict']
BOUNDS = ('user problems with at most 4 unknowns per variable whose x and y steps produce '
          'arbitrary (symbolic) values at each of at most 3 iterations; residuals, tolerances, '
          'weights and constraint operators symbolic or fixed rational as listed')

KINDS = ['ADMM', 'ADMMEqual', 'ADMMTwoBlockCnstrnt', 'ADMMConsensus', 'WeightedADMMConsensus']
N = 2


class Prob:
    """A user problem of the given kind.  Its x and y steps store arbitrary
    values (fresh symbols for every iteration)."""

    def __init__(self, c, kind, opt, feed=None, nx=N):
        A = c.mod('sporco.admm.admm')
        np = c.np
        self.c, self.kind, self.np = c, kind, np
        self.log = []
        self.calls = 0
        pr = self
        self.n = nx
        if kind == 'ADMM':
            Am, Bm = c.const(csc.vals((3, nx), 5)), c.const(csc.vals((3, 2), 6))
            cv = c.real('c', (3,))
            self.xs, self.ys, self.us = (nx,), (2,), (3,)
            self.A = lambda x: Am.dot(x)
            self.AT = lambda u: Am.T.dot(u)
            self.B = lambda y: Bm.dot(y)
            self.cc = cv
        elif kind == 'ADMMEqual':
            self.xs = self.ys = self.us = (nx,)
            self.A = self.AT = lambda x: x
            self.B = lambda y: -y
            self.cc = np.zeros((nx,))
        elif kind == 'ADMMTwoBlockCnstrnt':
            A0, A1 = c.const(csc.vals((2, nx), 7)), c.const(csc.vals((1, nx), 8))
            c0, c1 = c.real('c0', (2,)), c.real('c1', (1,))
            self.xs, self.ys, self.us = (nx,), (3,), (3,)
            self.A = lambda x: np.concatenate((A0.dot(x), A1.dot(x)))
            self.AT = lambda u: A0.T.dot(u[0:2]) + A1.T.dot(u[2:])
            self.B = lambda y: -y
            self.cc = np.concatenate((c0, c1))
        else:
            Nb = 2
            self.xs, self.ys, self.us = (nx, Nb), (nx,), (nx, Nb)
            if kind == 'ADMMConsensus':
                al = self.al = c.const([1.0, 1.0])
            else:
                al = self.al = c.real('alpha', (Nb,), lo=0.25, hi=4.0)
            self.cc = np.zeros((nx, Nb))

        def common(self):
            pass

        class P(getattr(A, kind)):
            def __init__(self, o):
                if kind == 'ADMM':
                    super().__init__(nx, pr.ys, pr.us, np.dtype('float64'), o)
                elif kind == 'ADMMEqual':
                    super().__init__(pr.xs, np.dtype('float64'), o)
                elif kind == 'ADMMTwoBlockCnstrnt':
                    super().__init__(nx, pr.ys, 0, 2, np.dtype('float64'), o)
                elif kind == 'ADMMConsensus':
                    super().__init__(2, pr.ys, np.dtype('float64'), o)
                else:
                    super().__init__(2, pr.al, pr.ys, np.dtype('float64'), o)
                if not kind.endswith('Consensus'):
                    self.X = np.zeros(pr.xs)
                else:
                    self.X = np.zeros(pr.xs)

            def rhochange(self):
                pr.log.append('rho')

        if kind.endswith('Consensus'):
            def xistep(self, i):
                if i == 0:
                    pr.log.append('x')
                    pr.calls += 1
                    pr.Xk = pr.newx(self)
                self.X[..., i] = pr.Xk[..., i]

            def prox_g(self, V, rho):
                pr.log.append('y')
                pr.proxarg = (V.copy(), rho)
                return pr.newy(self)
            P.xistep, P.prox_g = xistep, prox_g
        else:
            def xstep(self):
                pr.log.append('x')
                pr.calls += 1
                self.X = pr.newx(self)

            def ystep(self):
                pr.log.append('y')
                pr.AXin = self.AX.copy()
                self.Y = pr.newy(self)
            P.xstep, P.ystep = xstep, ystep
        if kind == 'ADMM':
            P.cnst_A = lambda self, X: pr.A(X)
            P.cnst_AT = lambda self, X: pr.AT(X)
            P.cnst_B = lambda self, Y: pr.B(Y)
            P.cnst_c = lambda self: cv
        if kind == 'ADMMTwoBlockCnstrnt':
            P.cnst_A0 = lambda self, X: A0.dot(X)
            P.cnst_A1 = lambda self, X: A1.dot(X)
            P.cnst_A0T = lambda self, Y: A0.T.dot(Y)
            P.cnst_A1T = lambda self, Y: A1.T.dot(Y)
            P.cnst_c0 = lambda self: c0
            P.cnst_c1 = lambda self: c1
            P.obfn_f = lambda self, X: pr.f(X)
            P.obfn_g0 = lambda self, Y: pr.g(Y)
            P.obfn_g1 = lambda self, Y: pr.h(Y)
        elif kind.endswith('Consensus'):
            P.obfn_fi = lambda self, X, i: pr.f(X) * (i + 2)
            P.obfn_g = lambda self, Y: pr.g(Y)
        else:
            P.obfn_f = lambda self, X: pr.f(X)
            P.obfn_g = lambda self, Y: pr.g(Y)
        # arbitrary but distinguishable objective terms
        self.f = lambda X: np.sum(X * c.const(csc.vals(X.shape, 31)))
        self.g = lambda X: np.sum(X * c.const(csc.vals(X.shape, 37))) + 1.0
        self.h = lambda X: np.sum(X * X * c.const(csc.vals(X.shape, 41)))
        self.P = P
        self.Opt = getattr(A, kind).Options

    def newx(self, b):
        return self.c.real('X%d' % self.calls, self.xs)

    def newy(self, b):
        return self.c.real('Y%d' % self.calls, self.ys)

    def make(self, **kw):
        c = self.c
        o = {'Verbose': False, 'Y0': c.real('Y0', self.ys), 'U0': c.real('U0', self.us)}
        o.update(kw)
        self.opt = self.Opt(o)
        return self.P(self.opt)

    # reference operators
    def refA(self, x):
        if self.kind.endswith('Consensus'):
            return x
        return self.A(x)

    def refB(self, y):
        if self.kind.endswith('Consensus'):
            return -self.np.stack((y, y), axis=-1)
        return self.B(y)

    def relaxed(self, x, yp, a):
        """alpha A x - (1 - alpha)(B y - c)"""
        return a * self.refA(x) - (1 - a) * (self.refB(yp) - self.cc)


def nrm(np, v):
    return np.sqrt(np.sum(v * v))


# ------------------------------------------------------------- main loop

LOOP = []
for _k in KINDS:
    LOOP += [dict(kind=_k, it=3, fast=0, auto=0, rlx=1.0),
             dict(kind=_k, it=2, fast=1, auto=0, rlx=1.8),
             dict(kind=_k, it=3, fast=0, auto=1, rlx=1.5, period=2),
             dict(kind=_k, it=2, fast=1, auto=1, rlx=1.0, period=1)]
LOOP += [dict(kind='ADMMEqual', it=3, fast=0, auto=1, rlx=1.0, period=3),
         dict(kind='ADMMEqual', it=3, fast=0, auto=1, rlx=1.0, period=1, cb=1),
         dict(kind='ADMM', it=3, fast=0, auto=0, rlx=1.75, cb=1),
         dict(kind='ADMMConsensus', it=2, fast=1, auto=0, rlx=1.75, cb=1)]


@reg.case('loop', LOOP, paths=400, limit=120)
def loop(c, kind, it, fast, auto, rlx, period=1, cb=0):
    np = c.np
    pr = Prob(c, kind, None)
    snaps = []
    res = []
    args = []
    stop_at = 1

    def callback(b):
        pr.log.append('cb')
        if cb and len([q for q in pr.log if q == 'cb']) > stop_at:
            return True
        return None

    tau, mu = 2.0, 3.0
    kw = dict(MaxMainIter=it, FastSolve=bool(fast), RelaxParam=rlx, rho=0.75,
              Callback=callback,
              AutoRho={'Enabled': bool(auto), 'Period': period, 'Scaling': tau,
                       'RsdlRatio': mu, 'AutoScaling': False})
    b = pr.make(**kw)
    Y0, U0 = pr.opt['Y0'], pr.opt['U0']
    c.keep(Y0, U0)

    def compres():
        k = len(res) + 1
        pr.log.append('res')
        args.append((b.AXnr.copy(), b.Y.copy(), b.Yprev.copy(), b.U.copy()))
        # a fixed dual residual and tolerances: only ratios matter here
        t = (c.real('r%d' % k, (), lo=0.0, hi=8.0), 1.0, c.real('e%d' % k, (), lo=0.0, hi=8.0),
             c.real('d%d' % k, (), lo=0.0, hi=2.0))
        res.append(t)
        return t
    b.compute_residuals = compres
    ret = b.solve()
    c.unchanged('initial values not modified')
    # reference
    log = []
    Y, U, rho = Y0, U0, 0.75
    nres = 0
    rhos = []
    done = 0
    for k in range(it):
        log += ['x']
        X = c.real('X%d' % (k + 1), pr.xs)
        Yn = c.real('Y%d' % (k + 1), pr.ys)
        AXr = pr.relaxed(X, Y, rlx)
        U = U + (AXr + pr.refB(Yn) - pr.cc)
        log += ['y']
        if kind.endswith('Consensus') and k + 1 == pr.calls:
            Up = U - (AXr + pr.refB(Yn) - pr.cc)
            w = pr.al / np.sum(pr.al)
            c.eq('prox argument', pr.proxarg[0], np.sum((AXr + Up) * w, axis=-1))
            c.eq('prox parameter', pr.proxarg[1], np.sum(pr.al) * rho)
        elif k + 1 == pr.calls:
            c.eq('relaxed', pr.AXin, AXr)
        r = s = e = d = None
        if auto or not fast:
            log += ['res']
            if nres >= len(res):
                c.true('residuals evaluated', False)
                return
            r, s, e, d = res[nres]
            c.eq('res AX', args[nres][0], pr.refA(X))
            c.eq('res Y', args[nres][1], Yn)
            c.eq('res Yprev', args[nres][2], Y)
            c.eq('res U', args[nres][3], U)
            nres += 1
        rhos.append(rho)
        if auto and k != 0 and (k + 1) % period == 0:
            if c.branch(r > mu * s):
                rho, U = rho * tau, U / tau
                log += ['rho']
            elif c.branch(s > mu * r):
                rho, U = rho / tau, U * tau
                log += ['rho']
        Y = Yn
        log += ['cb']
        done = k + 1
        if cb and k + 1 > stop_at:
            break
        if r is not None and c.branch(r < e):
            if c.branch(s < d):
                break
    c.true('iterations performed', pr.calls == done)
    c.true('order of operations', [q for q in pr.log] == log)
    if pr.calls != done or pr.log != log:
        return
    c.eq('X', b.X, X)
    c.eq('Y', b.Y, Y)
    c.eq('U', b.U, U)
    c.eq('rho', b.rho, rho)
    c.true('counter', b.k == done)
    c.eq('returned', ret, {'ADMM': X, 'ADMMEqual': X, 'ADMMTwoBlockCnstrnt': X}.get(kind, Y))
    c.true('statistics records', len(b.itstat) == (0 if fast else done))
    if fast:
        return
    for k, t in enumerate(b.itstat):
        c.true('Iter', t.Iter == k)
        c.eq('PrimalRsdl', t.PrimalRsdl, res[k][0])
        c.eq('DualRsdl', t.DualRsdl, res[k][1])
        c.eq('EpsPrimal', t.EpsPrimal, res[k][2])
        c.eq('EpsDual', t.EpsDual, res[k][3])
        c.eq('Rho', t.Rho, rhos[k])


# -------------------------------------------------- residual definitions

RES = [dict(kind=_k, std=s, m=m) for _k in KINDS for s in (0, 1) for m in (0, 1)]


@reg.case('residuals', RES, paths=100, limit=120)
def residuals(c, kind, std, m):
    """Residuals and tolerances of an arbitrary state."""
    np = c.np
    pr = Prob(c, kind, None, nx=1 if kind.endswith('Consensus') else 2)
    at, rt = 0.25, 0.5
    b = pr.make(rho=1.5, AbsStopTol=at, RelStopTol=rt, AutoRho={'StdResiduals': bool(std)})
    X, Y, Yp, U = (c.real(q, s) for q, s in zip(('X', 'Y', 'Yp', 'U'),
                                               (pr.xs, pr.ys, pr.ys, pr.us)))
    if m:
        # an all-zero state (zero normalisation terms)
        Y, U = np.zeros(pr.ys), np.zeros(pr.us)
        X = np.zeros(pr.xs)
    b.X, b.Y, b.Yprev, b.U = X, Y, Yp, U
    b.relax_AX()
    r, s, ep, ed = b.compute_residuals()
    if kind.endswith('Consensus'):
        sa = np.sqrt(pr.al)
        AX, BY = sa * X, -np.stack((Y, Y), axis=-1) * sa
        pri = AX + BY
        dua = 1.5 * sa * sa * np.stack((Y - Yp, Y - Yp), axis=-1)
        ATU = pr.al * U
        cc = np.zeros((1,))
        nc = nx = 2
    else:
        AX, BY, cc = pr.A(X), pr.B(Y), pr.cc
        pri = AX + BY - cc
        dua = 1.5 * pr.AT(pr.B(Y - Yp))
        ATU = pr.AT(U)
        nc = {'ADMM': 3, 'ADMMEqual': 2}.get(kind, 3)
        nx = 2
    ax, by, cn = nrm(np, AX), nrm(np, BY), nrm(np, cc)
    rn = ax if c.branch(ax >= by) else by
    rn = cn if c.branch(cn > rn) else rn
    sn = 1.5 * nrm(np, ATU)
    if not std:
        if c.branch(rn == 0):
            rn = 1.0
        if c.branch(sn == 0):
            sn = 1.0
        c.eq('primal residual', r * rn, nrm(np, pri))
        c.eq('dual residual', s * sn, nrm(np, dua))
        c.eq('primal tolerance', (ep - rt) * rn, np.sqrt(float(nc)) * at)
        c.eq('dual tolerance', (ed - rt) * sn, np.sqrt(float(nx)) * at)
    else:
        c.eq('primal residual', r, nrm(np, pri))
        c.eq('dual residual', s, nrm(np, dua))
        c.eq('primal tolerance', ep, np.sqrt(float(nc)) * at + rt * rn)
        c.eq('dual tolerance', ed, np.sqrt(float(nx)) * at + rt * sn)


# ------------------------------------------------------- rho adaptation

@reg.case('rho', [dict(auto=a, xi=x, k=k, period=p) for a in (0, 1) for x in (None, 2.5)
                  for k, p in ((1, 2), (0, 1), (2, 2), (1, 1), (9, 10))], paths=100)
def rho(c, auto, xi, k, period):
    np = c.np
    pr = Prob(c, 'ADMMEqual', None)
    tau, mu = 2.0, 1.5
    b = pr.make(rho=0.5, AutoRho={'Enabled': True, 'Period': period, 'Scaling': tau,
                                  'RsdlRatio': mu, 'RsdlTarget': xi, 'AutoScaling': bool(auto)})
    r, s = c.real('r', (), lo=0.0, hi=64.0), c.real('s', (), lo=0.0, hi=64.0)
    U0 = b.U.copy()
    x = 1.0 if xi is None else xi
    b.update_rho(k, r, s)
    if k == 0 or (k + 1) % period:
        c.eq('rho', b.rho, 0.5)
        c.eq('U', b.U, U0)
        return
    mult = tau
    if c.branch(r > x * mu * s):
        if auto:
            if c.branch(s > 0) and c.branch(r <= tau * tau * s * x):
                mult = np.sqrt(r / (s * x))
        c.eq('rho', b.rho, 0.5 * mult)
        c.eq('U', b.U * mult, U0)
        c.true('solver told', pr.log == ['rho'])
    elif c.branch(s * x > mu * r):
        if auto:
            if c.branch(r > 0) and c.branch(s * x <= tau * tau * r):
                mult = np.sqrt(s * x / r)
        c.eq('rho', b.rho * mult, 0.5)
        c.eq('U', b.U, U0 * mult)
        c.true('solver told', pr.log == ['rho'])
    else:
        c.eq('rho', b.rho, 0.5)
        c.eq('U', b.U, U0)


# ------------------------------------------- continuation of a solve call

class LinProb(Prob):
    """x and y steps that are fixed linear functions of the state."""

    def newx(self, b):
        np, c = self.np, self.c
        U = b.U
        X = np.zeros(self.xs)
        ay = c.const(csc.vals((4, 4), 51))
        v = np.concatenate((np.ravel(b.Y), np.ravel(U)))
        n = 1
        for q in self.xs:
            n *= q
        M = c.const(csc.vals((n, v.shape[0]), 52) / 4)
        return M.dot(v).reshape(self.xs) + b.rho

    def newy(self, b):
        np, c = self.np, self.c
        v = np.concatenate((np.ravel(b.X), np.ravel(b.U)))
        n = 1
        for q in self.ys:
            n *= q
        M = c.const(csc.vals((n, v.shape[0]), 53) / 4)
        return M.dot(v).reshape(self.ys)


@reg.case('resume', [dict(kind=k, auto=a) for k in KINDS for a in (0, 1)])
def resume(c, kind, auto):
    """Two calls of the solve method perform the same iterations as one."""
    out = []
    for split in ((3,), (1, 2), (2, 1)):
        pr = LinProb(c, kind, None)
        b = pr.make(MaxMainIter=3, RelaxParam=1.5, rho=0.5, AutoRho={
            'Enabled': bool(auto), 'Period': 2, 'Scaling': 2.0, 'RsdlRatio': 1.5})
        b.compute_residuals = lambda: (4.0, 1.0, 0.5, 0.5)
        for n in split:
            b.opt['MaxMainIter'] = n
            b.solve()
        out.append((b, pr))
    b0, p0 = out[0]
    for b, p in out[1:]:
        c.eq('X', b.X, b0.X)
        c.eq('Y', b.Y, b0.Y)
        c.eq('U', b.U, b0.U)
        c.eq('rho', b.rho, b0.rho)
        c.true('counter', b.k == b0.k and b.k == 3)
        c.true('calls', p.log == p0.log)
        c.true('records', len(b.itstat) == 3)
        for k, (t, t0) in enumerate(zip(b.itstat, b0.itstat)):
            c.true('Iter', t.Iter == k and t0.Iter == k)
            c.eq('ObjFun', t.ObjFun, t0.ObjFun)
        st = b.getitstat()
        c.true('transposed statistics', tuple(st.Iter) == (0, 1, 2) or list(st.Iter) == [0, 1, 2])
        for k in range(3):
            c.eq('transposed statistics', st.ObjFun[k], b.itstat[k].ObjFun)


# ------------------------------------------------- objective evaluation

OBJ = [dict(kind='ADMM'), dict(kind='ADMMEqual', fEvalX=True, gEvalY=True),
       dict(kind='ADMMEqual', fEvalX=False, gEvalY=True, ReturnX=False),
       dict(kind='ADMMEqual', fEvalX=True, gEvalY=False, ReturnX=True),
       dict(kind='ADMMTwoBlockCnstrnt', AuxVarObj=True, ReturnVar='Y0'),
       dict(kind='ADMMTwoBlockCnstrnt', AuxVarObj=False, ReturnVar='Y1'),
       dict(kind='ADMMTwoBlockCnstrnt', AuxVarObj=False, ReturnVar='X'),
       dict(kind='ADMMConsensus', AuxVarObj=True), dict(kind='ADMMConsensus', AuxVarObj=False),
       dict(kind='ADMMConsensus', fEvalX=True, gEvalY=True),
       dict(kind='WeightedADMMConsensus', AuxVarObj=True),
       dict(kind='WeightedADMMConsensus', AuxVarObj=False),
       dict(kind='WeightedADMMConsensus', fEvalX=False, gEvalY=False)]


@reg.case('objective', OBJ)
def objective(c, kind, **kw):
    np = c.np
    pr = Prob(c, kind, None)
    b = pr.make(MaxMainIter=1, **kw)
    b.compute_residuals = lambda: (4.0, 1.0, 0.5, 0.5)
    ret = b.solve()
    X, Y = c.real('X1', pr.xs), c.real('Y1', pr.ys)
    t = b.itstat[0]
    ret0 = X
    if kind == 'ADMM':
        f, g = pr.f(X), pr.g(Y)
    elif kind == 'ADMMEqual':
        f = pr.f(X if kw['fEvalX'] else Y)
        g = pr.g(Y if kw['gEvalY'] else X)
        ret0 = X if kw.get('ReturnX', True) else Y
    elif kind == 'ADMMTwoBlockCnstrnt':
        Z = Y if kw['AuxVarObj'] else pr.A(X) - pr.cc
        f, g, h = pr.f(X), pr.g(Z[0:2]), pr.h(Z[2:])
        ret0 = {'X': X, 'Y0': Y[0:2], 'Y1': Y[2:]}[kw['ReturnVar']]
        c.eq('var_y0', b.var_y0(), Y[0:2])
        c.eq('var_y1', b.var_y1(), Y[2:])
    else:
        fx = kw['fEvalX'] if 'fEvalX' in kw else not kw['AuxVarObj']
        gy = kw['gEvalY'] if 'gEvalY' in kw else kw['AuxVarObj']
        f = sum(pr.al[i] * (i + 2) * pr.f(X[..., i] if fx else Y) for i in range(2))
        g = pr.g(Y if gy else np.sum(pr.al * X, axis=-1) / np.sum(pr.al))
        ret0 = Y
    c.eq('f', t.FVal, f)
    if kind == 'ADMMTwoBlockCnstrnt':
        c.eq('g0', t.G0Val, g)
        c.eq('g1', t.G1Val, h)
        c.eq('objective', t.ObjFun, f + g + h)
    else:
        c.eq('g', t.GVal, g)
        c.eq('objective', t.ObjFun, f + g)
    c.eq('returned', ret, ret0)
    c.eq('var_x', b.var_x(), X)
    c.eq('var_y', b.var_y(), Y)
    c.eq('var_u', b.var_u(), b.U)


# ------------------------------------------------------- initialisation

@reg.case('init', [dict(kind=k) for k in KINDS])
def init(c, kind):
    np = c.np
    pr = Prob(c, kind, None)
    pr.opt = pr.Opt({'Verbose': False})
    b = pr.P(pr.opt)
    c.eq('Y', b.Y, np.zeros(pr.ys))
    c.eq('U', b.U, np.zeros(pr.us))
    c.eq('rho', b.rho, 1.0)
    c.eq('rlx', b.rlx, 1.0)
    pr2 = Prob(c, kind, None)
    b2 = pr2.make(rho=0.25, RelaxParam=1.75)
    c.eq('Y0', b2.Y, pr2.opt['Y0'])
    c.eq('U0', b2.U, pr2.opt['U0'])
    c.eq('rho0', b2.rho, 0.25)
    c.eq('rlx0', b2.rlx, 1.75)
    c.raises('options type', lambda: pr.P({'rho': 1.0}), TypeError)


@reg.case('cold start', [dict(fam=f, cls=k) for f, k in HDR if not f.startswith('pgm')])
def cold(c, fam, cls):
    """solvers without given initial values start from zero"""
    b = build(c, fam, cls, {'Verbose': False})
    for v in (b.Y, b.U):
        c.eq('initial value', v, c.np.zeros(v.shape))
    c.eq('iteration', b.k, 0)
    c.eq('records', len(b.itstat), 0)
    if cls != 'ConvCnstrMODMaskDcpl_Consensus':      # (has a second dual variable)
        c.eq('dimensions', b.Nc, int(b.U.size))
