"""P11: the generic proximal gradient framework (main loop, momentum, step
size policies, backtracking, monotone variant, stopping, statistics) for
user-defined problems."""
from sx.run import Registry
from sx import csc
reg = Registry()
MODULES = ['sporco.pgm.pgm', 'sporco.pgm.backtrack', 'sporco.pgm.momentum', 'sporco.pgm.stepsize', 'sporco.common']
BOUNDS = ('user problems with 2 (spatial) or 4 (frequency domain) unknowns whose gradient, proximal map and '
          'function values are arbitrary (fresh symbols at every call); at most 3 iterations, at most 3 '
          'backtracking trials per iteration')
KINDS = ['PGM', 'PGMDFT']


class Prob:
    def __init__(self, c, kind):
        P_ = c.mod('sporco.pgm.pgm')
        self.c, self.kind = c, kind
        np = self.np = c.np
        self.n = 2 if kind == 'PGM' else 4
        pr = self
        self.proxarg, self.gradarg, self.farg = [], [], []
        self.ng = self.nx = 0
        self.fsym = False
        self.tag = 0

        class Q(getattr(P_, kind)):
            def __init__(self, o):
                if kind == 'PGM':
                    super().__init__((pr.n,), np.dtype('float64'), o)
                    self.Y = self.X.copy()
                else:
                    super().__init__((pr.n,), (pr.n,), (0,), np.dtype('float64'), o)
                    self.Xf = pr.F(self.X)
                    self.Yf = self.Xf.copy()
                    self.Vf = self.Xf.copy()
                self.Yprv = None

            def grad_f(self, V=None):
                V = self.var_y() if V is None else V
                pr.gradarg.append(V.copy())
                pr.ng += 1
                if pr.tag:
                    return pr.F(c.const(csc.vals((pr.n,), 50 + 3 * pr.ng)))
                return pr.F(c.real('G%d' % pr.ng, (pr.n,)))

            def hessian_f(self, V):
                return pr.hess(V)

            def prox_g(self, V):
                pr.proxarg.append((V.copy(), self.L))
                pr.nx += 1
                if pr.tag:
                    return c.const(csc.vals((pr.n,), 90 + 7 * pr.nx))
                return c.real('X%d' % pr.nx, (pr.n,))

            def obfn_f(self, X):
                if pr.fsym:
                    pr.farg.append(X.copy())
                    return c.real(('f%d' if not pr.tag else 'e%d') % len(pr.farg), ())
                return pr.f(X)

            def obfn_g(self, X):
                return pr.g(X)
        if kind == 'PGMDFT':
            # the frequency domain base class leaves these to the problem
            Q.eval_objfn = lambda self: (pr.f(self.X) + pr.g(self.X), pr.f(self.X), pr.g(self.X))
            Q.rsdl = lambda self: pr.np.sqrt(pr.np.sum((pr.Fi(self.Xf) - pr.Fi(self.Yfprv)) ** 2))
        # arbitrary distinguishable functions; in the frequency domain f
        # takes the spectrum
        self.f = lambda X: np.sum(X * c.const(csc.vals(X.shape, 31)))
        self.g = lambda X: np.sum(X * c.const(csc.vals(X.shape, 37))) + 1.0
        self.Q = Q
        self.Opt = getattr(P_, kind).Options
        self.M = P_

    def F(self, x):
        if self.kind == 'PGM':
            return x
        return self.c.mod('sporco.fft').rfftn(x, None, (0,))

    def Fi(self, x):
        if self.kind == 'PGM':
            return x
        return self.c.mod('sporco.fft').irfftn(x, (self.n,), (0,))

    def make(self, **kw):
        self.X0 = self.c.real('X0', (self.n,))
        o = {'Verbose': False, 'X0': self.X0, 'L': 2.0}
        o.update(kw)
        self.opt = self.Opt(o)
        return self.Q(self.opt)


def mom(c, m):
    M = c.mod('sporco.pgm.momentum')
    return {'N': lambda: M.MomentumNesterov(), 'L': lambda: M.MomentumLinear(4.0),
            'G': lambda: M.MomentumGenLinear(8.0, 2.0)}[m]()


def tnext(np, m, t, k):
    """documented momentum sequences"""
    if m == 'N':
        return (1.0 + np.sqrt(1.0 + 4.0 * t * t)) / 2.0
    if m == 'L':
        return (k + 4.0) / 4.0
    return (k + 8.0) / 2.0


LOOP = []
for _k in KINDS:
    LOOP += [dict(kind=_k, it=3, m='L'), dict(kind=_k, it=2, m='N'), dict(kind=_k, it=3, m='G', fast=1),
             dict(kind=_k, it=3, m='L', auto=1), dict(kind=_k, it=3, m='G', cb=1),
             dict(kind=_k, it=2, m='L', fast=1, cb=1), dict(kind=_k, it=3, m='N', fast=1)]


@reg.case('loop', LOOP, paths=60, limit=120)
def loop(c, kind, it, m, fast=0, auto=0, cb=0):
    np = c.np
    pr = Prob(c, kind)
    seen = []

    def callback(b):
        seen.append(b.k)
        return True if cb and len(seen) == 2 else None
    tau, tol = 1.5, 0.75
    b = pr.make(MaxMainIter=it, FastSolve=bool(fast), Callback=callback, Momentum=mom(c, m), RelStopTol=tol,
                AutoStop={'Enabled': bool(auto), 'Tau0': tau})
    res = []

    def rsdl():
        res.append(c.real('r%d' % (len(res) + 1), (), lo=0.0, hi=4.0))
        return res[-1]
    b.rsdl = rsdl
    c.keep(pr.X0)
    ret = b.solve()
    c.unchanged('initial value not modified')
    X, Y, t, L = pr.X0, pr.X0, 1.0, 2.0
    done = 0
    stats = []
    for k in range(it):
        if pr.nx <= k:
            c.true('enough iterations', False)
            return
        G, Xn = c.real('G%d' % (k + 1), (pr.n,)), c.real('X%d' % (k + 1), (pr.n,))
        c.eq('gradient at y', pr.gradarg[k], pr.F(Y))
        c.eq('prox argument', pr.proxarg[k][0], Y - G / L)
        tn = tnext(np, m, t, k)
        Y = Xn + (t - 1.0) / tn * (Xn - X)
        X, t = Xn, tn
        done = k + 1
        stats.append((pr.f(X), pr.g(X)))
        if cb and done == 2:
            break
        if not fast:
            if c.branch(res[k] < (tau / (1.0 + k) if auto else tol)):
                break
    c.true('iterations', pr.nx == done and pr.ng == done)
    c.true('callback each iteration', seen == list(range(done)))
    c.true('counter', b.k == done)
    c.eq('X', b.X, X)
    c.eq('returned', ret, X)
    c.eq('Y', b.var_y(), pr.F(Y))
    c.eq('x variable', b.var_x(), pr.F(X))
    c.true('records', len(b.itstat) == (0 if fast else done))
    if not fast:
        for k, s in enumerate(b.itstat):
            c.true('Iter', s.Iter == k)
            c.eq('Rsdl', s.Rsdl, res[k])
            c.eq('FVal', s.FVal, stats[k][0])
            c.eq('GVal', s.GVal, stats[k][1])
            c.eq('ObjFun', s.ObjFun, stats[k][0] + stats[k][1])
            c.eq('L', s.L, L)


@reg.case('residual', [dict(kind=k, it=i) for k in KINDS for i in (1, 2)])
def residual(c, kind, it):
    """Fixed point residual: distance of the new iterate to the point the
    gradient step was taken from."""
    np = c.np
    pr = Prob(c, kind)
    b = pr.make(MaxMainIter=it, RelStopTol=-1.0, Momentum=mom(c, 'L'))
    b.solve()
    Y = X = pr.X0
    t = 1.0
    for k in range(it):
        Xn = c.real('X%d' % (k + 1), (pr.n,))
        c.eq('residual', b.itstat[k].Rsdl, np.sqrt(np.sum((Xn - Y) ** 2)))
        tn = tnext(np, 'L', t, k)
        X, Y, t = Xn, Xn + (t - 1.0) / tn * (Xn - X), tn


@reg.case('resume', [dict(kind=k, m=m, mono=mo) for k in KINDS for m in ('L', 'N') for mo in (0, 1)], paths=40)
def resume(c, kind, m, mono):
    out = []
    for split in ((2,), (1, 1)):
        pr = Prob(c, kind)
        b = pr.make(MaxMainIter=split[0], RelStopTol=-1.0, Momentum=mom(c, m), Monotone=bool(mono))
        b.rsdl = lambda: 1.0
        for n in split:
            b.opt['MaxMainIter'] = n
            b.solve()
        out.append((b.X.copy(), b.var_y().copy(), b.t, b.k, [s.Iter for s in b.itstat], [s.ObjFun for s in b.itstat],
                    pr.proxarg))
    a, d = out
    for i, nm in ((0, 'X'), (1, 'Y'), (2, 't')):
        c.eq(nm, d[i], a[i])
    c.true('iterations', a[3] == d[3] and a[4] == d[4] and len(a[6]) == len(d[6]))
    c.eq('objective', c.np.array(d[5]), c.np.array(a[5]))
    for p, q in zip(a[6], d[6]):
        c.eq('prox argument', q[0], p[0])


MONO = [dict(kind=k, it=i, m=m) for k in KINDS for i, m in ((2, 'L'), (3, 'L'), (2, 'N'), (3, 'G'))]


@reg.case('monotone', MONO, paths=40)
def monotone(c, kind, it, m):
    np = c.np
    pr = Prob(c, kind)
    pts = []
    b = pr.make(MaxMainIter=it, RelStopTol=-1.0, Momentum=mom(c, m), Monotone=True,
                Callback=lambda s: pts.append(s.X.copy()) and None)
    b.rsdl = lambda: 1.0
    ret = b.solve()

    def ob(x):
        return pr.f(x) + pr.g(x)
    Y = X = pr.X0
    t = 1.0
    for k in range(it):
        G, Z = c.real('G%d' % (k + 1), (pr.n,)), c.real('X%d' % (k + 1), (pr.n,))
        c.eq('prox argument', pr.proxarg[k][0], Y - G / 2.0)
        # the candidate is rejected when it increases the objective (not
        # applied at the first iteration)
        Xp = X
        X = Xp if k > 0 and c.branch(ob(Xp) < ob(Z)) else Z
        c.eq('iterate', pts[k], X)
        c.eq('reported objective', b.itstat[k].ObjFun, ob(X))
        if k > 0:
            c.le('non-increasing', b.itstat[k].ObjFun, b.itstat[k - 1].ObjFun)
            c.le('non-increasing iterates', ob(pts[k]), ob(pts[k - 1]))
        tn = tnext(np, m, t, k)
        Y = X + t / tn * (Z - X) + (t - 1.0) / tn * (X - Xp)
        t = tn
    c.eq('returned', ret, X)
    c.eq('x variable', b.var_x(), pr.F(X))
    c.eq('Y', b.var_y(), pr.F(Y))


BT = [dict(kind=k, it=i, mx=mx) for k in KINDS for i, mx in ((1, 3), (2, 2))]


def inner(np, a, b):
    return np.sum(np.real(np.conj(a) * b))


@reg.case('backtrack', BT, paths=60, limit=120)
def backtrack(c, kind, it, mx):
    """Standard line search: arbitrary function values, gradients and
    proximal points."""
    np = c.np
    pr = Prob(c, kind)
    pr.fsym = True
    BTm = c.mod('sporco.pgm.backtrack')
    SS = c.mod('sporco.pgm.stepsize')
    b = pr.make(MaxMainIter=it, FastSolve=True, Momentum=mom(c, 'L'), StepSizePolicy=SS.StepSizePolicyCauchy(),
                Backtrack=BTm.BacktrackStandard(gamma_u=1.5, maxiter=mx))
    b.solve()
    X = Y = pr.X0
    L, t = 2.0, 1.0
    nx = ng = nf = 0
    for k in range(it):
        ng += 1
        G = c.real('G%d' % ng, (pr.n,))
        c.eq('gradient at y', pr.gradarg[ng - 1], pr.F(Y))
        ok = False
        for j in range(mx):
            nx += 1
            if nx > pr.nx:
                c.true('enough trials', False)
                return
            Xn = c.real('X%d' % nx, (pr.n,))
            c.eq('prox argument', pr.proxarg[nx - 1][0], Y - G / L)
            c.eq('prox step', pr.proxarg[nx - 1][1], L)
            fx, fy = c.real('f%d' % (nf + 1), ()), c.real('f%d' % (nf + 2), ())
            c.eq('f at x', pr.farg[nf], pr.F(Xn))
            c.eq('f at y', pr.farg[nf + 1], pr.F(Y))
            nf += 2
            d = pr.F(Xn) - pr.F(Y)
            Qv = fy + inner(np, d, pr.F(G)) + L / 2.0 * inner(np, d, d)
            if c.branch(fx <= Qv):
                ok = True
                break
            L = L * 1.5
        tn = tnext(np, 'L', t, k)
        Xp, X = X, Xn
        Y = X + (t - 1.0) / tn * (X - Xp)
        t = tn
        if not ok and k + 1 < it:
            # step size after exhausting the trials is not specified
            return
    c.true('trials', pr.nx == nx and pr.ng == ng)
    c.eq('X', b.X, X)
    c.eq('Y', b.var_y(), pr.F(Y))
    c.eq('F', b.F, fx)
    c.eq('Q', b.Q, Qv)
    c.true('trial count', b.iterBTrack == j + 1)
    if ok:
        c.eq('L', b.L, L)
        c.true('accepted', b.F <= b.Q)


@reg.case('robust', [dict(kind=k, it=i, mx=mx) for k in KINDS for i, mx in ((1, 3), (2, 2))], paths=60, limit=120)
def robust(c, kind, it, mx):
    """Line search with momentum of Florea and Vorobyov."""
    np = c.np
    pr = Prob(c, kind)
    pr.fsym = True
    BTm = c.mod('sporco.pgm.backtrack')
    b = pr.make(MaxMainIter=it, FastSolve=True, Backtrack=BTm.BacktrackRobust(gamma_d=0.5, gamma_u=2.0, maxiter=mx))
    b.solve()
    X = Z = pr.X0
    L, T = 2.0, 0.0
    nx = nf = 0
    for k in range(it):
        L = L * 0.5
        ok = False
        for j in range(mx):
            nx += 1
            if nx > pr.nx:
                c.true('enough trials', False)
                return
            # a_{k+1} and A_{k+1} of the method
            t = (1.0 + np.sqrt(1.0 + 4.0 * L * T)) / (2.0 * L)
            Tn = T + t
            Y = (T * X + t * Z) / Tn
            G, Xn = c.real('G%d' % nx, (pr.n,)), c.real('X%d' % nx, (pr.n,))
            c.eq('gradient at y', pr.gradarg[nx - 1], pr.F(Y))
            c.eq('prox argument', pr.proxarg[nx - 1][0], Y - G / L)
            c.eq('prox step', pr.proxarg[nx - 1][1], L)
            fx, fy = c.real('f%d' % (nf + 1), ()), c.real('f%d' % (nf + 2), ())
            c.eq('f at x', pr.farg[nf], pr.F(Xn))
            c.eq('f at y', pr.farg[nf + 1], pr.F(Y))
            nf += 2
            d = pr.F(Xn) - pr.F(Y)
            Qv = fy + inner(np, d, pr.F(G)) + L / 2.0 * inner(np, d, d)
            if c.branch(fx <= Qv):
                ok = True
                break
            L = L * 2.0
        if not ok and k + 1 < it:
            return
        X = Xn
        T = Tn
        Z = Z + t * L * (Xn - Y)
    c.true('trials', pr.nx == nx)
    c.eq('X', b.X, X)
    c.eq('x variable', b.var_x(), pr.F(X))
    c.eq('F', b.F, fx)
    c.eq('Q', b.Q, Qv)
    c.true('trial count', b.iterBTrack == j + 1)
    if ok:
        c.eq('L', b.L, L)
        c.true('accepted', b.F <= b.Q)


@reg.case('cauchy', [dict(kind=k) for k in KINDS])
def cauchy(c, kind):
    """L is the curvature along the gradient."""
    np = c.np
    pr = Prob(c, kind)
    h = csc.vals((pr.F(np.zeros((pr.n,)))).shape, 12) ** 2
    pr.hess = lambda V: h * V
    SS = c.mod('sporco.pgm.stepsize')
    b = pr.make(MaxMainIter=3, FastSolve=True, Momentum=mom(c, 'L'), StepSizePolicy=SS.StepSizePolicyCauchy())
    G = pr.F(c.real('G3', (pr.n,)))
    c.assume(inner(np, G, G) >= 0.25)
    b.solve()
    L = inner(np, G, h * G) / inner(np, G, G)
    c.eq('L', b.L, L)
    c.eq('first steps', np.array([pr.proxarg[0][1], pr.proxarg[1][1]]), np.array([2.0, 2.0]))
    c.eq('prox argument', pr.F(pr.proxarg[2][0]) * L, pr.gradarg[2] * L - G)
    # without a given gradient, that of the current state is used
    G4 = pr.F(c.real('G4', (pr.n,)))
    c.assume(inner(np, G4, G4) >= 0.25)
    c.eq('update without gradient', b.stepsizepolicy.update(b) * inner(np, G4, G4), inner(np, G4, h * G4))
    c.eq('gradient evaluated at', pr.gradarg[-1], b.var_y())


@reg.case('bb', [dict(kind=k) for k in KINDS], paths=10)
def bb(c, kind):
    """Barzilai-Borwein step from consecutive iterates and gradients."""
    np = c.np
    pr = Prob(c, kind)
    SS = c.mod('sporco.pgm.stepsize')
    b = pr.make(MaxMainIter=3, FastSolve=True, Momentum=mom(c, 'L'), StepSizePolicy=SS.StepSizePolicyBB())
    dg = pr.F(c.real('G3', (pr.n,)) - c.real('G2', (pr.n,)))
    dx = pr.F(c.real('X2', (pr.n,)) - c.real('X1', (pr.n,)))
    den, num = inner(np, dx, dg), inner(np, dg, dg)
    neg = c.branch(den < 0.0)
    c.assume((den <= -0.125) if neg else (den >= 0.125))
    c.assume(num >= 0.125)
    b.solve()
    if neg:
        # negative curvature estimates are not used
        c.eq('L', b.L, 2.0)
    else:
        c.eq('L', b.L * den, num)
    # without a given gradient, that of the current state is used
    dg = pr.F(c.real('G4', (pr.n,)) - c.real('G3', (pr.n,)))
    dx = pr.F(c.real('X3', (pr.n,)) - c.real('X2', (pr.n,)))
    den = inner(np, dx, dg)
    c.assume(den >= 0.125)
    c.eq('update without gradient', b.stepsizepolicy.update(b) * den, inner(np, dg, dg))
    c.eq('gradient evaluated at', pr.gradarg[-1], b.var_y())


@reg.case('independent', [dict(kind=k, what=w, **i) for k in KINDS for w in ('robust', 'standard', 'bb', 'plain') for i in ({}, {'inter': 1})], limit=120)
def independent(c, kind, what, inter=0):
    """Two solvers constructed from the same options object do not influence
    each other."""
    np = c.np
    BTm, SS = c.mod('sporco.pgm.backtrack'), c.mod('sporco.pgm.stepsize')

    def opts():
        o = {'MaxMainIter': 3 if what == 'bb' and not inter else 2, 'FastSolve': True, 'Momentum': mom(c, 'L')}
        if what == 'robust':
            o['Backtrack'] = BTm.BacktrackRobust(gamma_d=0.5, maxiter=1)
        elif what == 'standard':
            o['Backtrack'] = BTm.BacktrackStandard(maxiter=1)
        elif what == 'bb':
            o['StepSizePolicy'] = SS.StepSizePolicyBB()
        return o

    def second(shared):
        pr = Prob(c, kind)
        pr.fsym = True
        pr.make(**opts())
        if inter:
            b = pr.Q(pr.opt)
            b.solve()
        if shared:
            # another solver, with another starting point, used before (or
            # while the first one is interrupted)
            p2 = Prob(c, kind)
            p2.fsym, p2.tag = True, 1
            pr.opt['X0'] = c.const(csc.vals((pr.n,), 4))
            p2.Q(pr.opt).solve()
            pr.opt['X0'] = pr.X0
        if inter:
            pr.opt['MaxMainIter'] = 1
        else:
            b = pr.Q(pr.opt)
        b.solve()
        return b, pr
    if what == 'bb':
        n = 2 if kind == 'PGM' else 4
        dx = c.real('X2', (n,)) - c.real('X1', (n,))
        dg = c.real('G3', (n,)) - c.real('G2', (n,))
        P0 = Prob(c, kind)
        c.assume(inner(np, P0.F(dx), P0.F(dg)) >= 0.125)
        c.assume(inner(np, P0.F(dg), P0.F(dg)) >= 0.125)
    b1, p1 = second(False)
    b2, p2 = second(True)
    c.true('calls', len(p1.proxarg) == len(p2.proxarg) and p1.ng == p2.ng)
    if len(p1.proxarg) == len(p2.proxarg):
        for p, q in zip(p1.proxarg, p2.proxarg):
            c.eq('prox argument', q[0], p[0])
            c.eq('prox step', q[1], p[1])
    c.eq('X', b2.X, b1.X)
    c.eq('Y', b2.var_y(), b1.var_y())
