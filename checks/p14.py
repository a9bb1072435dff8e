"""P14: the proximal gradient dictionary update solvers use the gradient,
Hessian and projection of the problem whose values they report."""
from sx.run import Registry
from sx import csc
from checks.p13 import dlay, ddimk, XTfull
reg = Registry()
MODULES = ['sporco.pgm.cmod', 'sporco.pgm.ccmod', 'sporco.pgm.pgm']
BOUNDS = ('arbitrary (symbolic) signals, masks, dictionaries, evaluation points and directions; signals of at '
          'most 12 samples, 3 channels, 2 signals, 3 filters; fixed rational coefficient maps')
L = 2.0
SH = {'a': (2, 3, 2), 'b': (3, 2, 2), 'c': (2, 1, 3)}


class PF:
    def __init__(self, c, cls, l, msk=None, zm=0, nn=0, opts=None, newz=0):
        self.c, self.cls = c, cls
        np = self.np = c.np
        o = {'Verbose': False, 'MaxMainIter': 1, 'L': L, 'RelStopTol': -1.0, 'ZeroMean': bool(zm)}
        o.update(opts or {})
        self.conv = cls.startswith('Conv')
        self.wt = 1.0
        if not self.conv:
            B = c.mod('sporco.pgm.cmod')
            Nc, M, K = SH[l]
            S, Z = c.real('S', (Nc, K)), c.const(csc.vals((M, K), 5))
            o['NonNegCoef'] = bool(nn)
            self.di, self.Si = (Nc, M), S
            kw = {}
            if msk:
                self.wt = W = c.real('W', {'full': (Nc, K), 'row': (Nc, 1)}[msk], nonneg=True, hi=2)
                kw['W'] = W
            C_ = getattr(B, cls)
            self.opt = C_.Options(o)
            self.b = C_(Z, S, dsz=(M,), opt=self.opt, **kw)
            if newz:
                Z = c.const(csc.vals((M, K), 8))
                self.b.setcoef(Z)
            self.ZD = lambda X: X.dot(Z)
            self.ZT = lambda R: R.dot(Z.T)
            self.F = lambda x: x
            self.sig = lambda q: q
            return
        B = c.mod('sporco.pgm.ccmod')
        N, n, C, Cd, K, M, ssh, dsz, si, zi, di = dlay(l)
        dimN = len(N)
        self.si, self.di, self.dsz, self.dimN = si, di, dsz, dimN
        S, Z = c.real('S', ssh), c.const(csc.vals(zi, 5))
        self.Si = S.reshape(si)
        args = [Z, S]
        if cls.endswith('Mask'):
            if msk:
                W = c.real('W', {'full': si, 'N': N, 'C': N + (C, 1, 1), 'K': N + (1, K, 1)}[msk], nonneg=True, hi=2)
                self.wt = (W.reshape(N + (1, 1, 1)) if msk == 'N' else W) ** 2
            else:
                W = c.const(1.0)
            args.append(W)
        C_ = getattr(B, cls)
        self.opt = C_.Options(o)
        self.b = C_(*(args + [dsz]), opt=self.opt, dimK=ddimk(C, Cd, K), dimN=dimN)
        if newz:
            Z = c.const(csc.vals(zi, 8))
            self.b.setcoef(Z)
        self.ZD = lambda X: csc.Dmul(np, X, Z, dimN)
        self.ZT = lambda R: XTfull(np, Z, R, Cd, dimN)
        ff = c.mod('sporco.fft')
        self.F = lambda x: ff.rfftn(x, None, tuple(range(dimN)))
        self.sig = lambda q: q.reshape(si)
        self.Pcn = c.mod('sporco.cnvrep').getPcn(dsz, N, dimN=dimN, dimC=1 if Cd > 1 else 0, zm=bool(zm))

    def res(self, X):
        return self.ZD(X) - self.Si

    def f(self, X):
        return 0.5 * self.np.sum(self.wt * self.res(X) ** 2)

    def grad(self, X):
        return self.ZT(self.wt * self.res(X))

    def hess(self, H):
        return self.ZT(self.wt * self.ZD(H))


LL = ('1d', '1dodd', '1dk', '1dc', '1dcd', '1dck', '2dcdk', '2dodd')
G = [dict(cls='CnstrMOD', l=_l) for _l in SH] + [dict(cls='CnstrMOD', l='a', newz=1)]
G += [dict(cls='WeightedCnstrMOD', l=_l, msk=_m) for _l, _m in (('a', 'full'), ('b', 'row'), ('c', None), ('b', 'full'))]
G += [dict(cls='ConvCnstrMOD', l=_l) for _l in LL] + [dict(cls='ConvCnstrMOD', l=_l, newz=1) for _l in ('1dk', '1dck')]
G += [dict(cls='ConvCnstrMODMask', l=_l, msk=_m) for _l, _m in (('1d', 'N'), ('1dodd', 'full'), ('1dk', 'full'), ('1dc', 'full'), ('1dcd', 'full'),
                                                                ('1dck', 'full'), ('1dck', 'C'), ('1dck', 'K'), ('1dck', 'N'), ('2dcdk', 'full'),
                                                                ('1dk', None))]
G += [dict(cls='ConvCnstrMODMask', l='1dck', msk='full', newz=1)]


@reg.case('gradient', G)
def gradient(c, cls, l, msk=None, newz=0):
    np = c.np
    f = PF(c, cls, l, msk=msk, newz=newz)
    b = f.b
    V, H = c.real('V', f.di), c.real('H', f.di)
    c.keep(V, H)
    c.eq('gradient', b.grad_f(f.F(V)), f.F(f.grad(V)))
    c.eq('hessian', b.hessian_f(f.F(H)), f.F(f.hess(H)))
    b.var_y(f.F(V))
    c.eq('gradient at y', b.grad_f(), f.F(f.grad(V)))
    c.unchanged()


@reg.case('smooth term', G)
def smooth(c, cls, l, msk=None, newz=0):
    np = c.np
    f = PF(c, cls, l, msk=msk, newz=newz)
    b = f.b
    V, H = c.real('V', f.di), c.real('H', f.di)
    if not f.conv:
        c.eq('f', b.obfn_f(V), f.f(V))
        b.X = V
        c.eq('f at the current iterate', b.obfn_f(), f.f(V))
        c.eq('expansion', b.obfn_f(V + H), f.f(V) + np.sum(f.grad(V) * H) + 0.5 * np.sum(H * f.hess(H)))
    else:
        R = f.F(np.sqrt(f.wt) * f.res(V) if msk else f.res(V))
        c.eq('f', b.obfn_f(f.F(V)), 0.5 * np.sum(np.real(np.conj(R) * R)))
        b.Xf = f.F(V)
        c.eq('f at the current iterate', b.obfn_f(), 0.5 * np.sum(np.real(np.conj(R) * R)))


P = [dict(cls='CnstrMOD', l='a'), dict(cls='CnstrMOD', l='c', zm=1), dict(cls='CnstrMOD', l='c', nn=1), dict(cls='WeightedCnstrMOD', l='c', zm=1)]
P += [dict(cls='ConvCnstrMOD', l=_l) for _l in ('1d', '1dk', '1dck', '1dcd')] + [dict(cls='ConvCnstrMOD', l='1dk', zm=1),
                                                                                 dict(cls='ConvCnstrMODMask', l='2dcdk', zm=1),
                                                                                 dict(cls='ConvCnstrMODMask', l='1dc')]


@reg.case('step', P, limit=120)
def step(c, cls, l, zm=0, nn=0):
    np = c.np
    f = PF(c, cls, l, zm=zm, nn=nn, opts={'FastSolve': True})
    b = f.b
    prox = b.prox_g
    Y, V1 = c.real('Y', f.di), c.real('V1', f.di)
    got = []

    def cutprox(V):
        got.append(V.copy())
        return prox(V1.copy())
    b.prox_g = cutprox
    b.var_y(f.F(Y))
    ret = b.solve()
    c.eq('gradient step', got[0], Y - f.grad(Y) / L)
    X = b.X
    if f.conv:
        c.eq('projection', X, f.Pcn(V1))
        c.eq('spectrum', b.Xf, f.F(X))
        c.eq('dictionary', b.getdict(), c.mod('sporco.cnvrep').bcrop(X, f.dsz, f.dimN))
        c.eq('uncropped', b.getdict(crop=False), X)
    else:
        V = V1
        if zm:
            V = V - np.sum(V, axis=0, keepdims=True) / V.shape[0]
        if nn:
            V = np.where(V > 0, V, 0.0)
        for m in range(V.shape[1]):
            n2 = np.sum(V[:, m] ** 2)
            if c.branch(n2 == 0.0):
                c.eq('zero column', X[:, m], np.zeros((V.shape[0],)))
            else:
                c.eq('unit column', X[:, m] * np.sqrt(n2), V[:, m])
        c.eq('dictionary', b.getdict(), X)
    c.eq('returned', ret, X)


@reg.case('objective', G)
def objective(c, cls, l, msk=None, newz=0):
    np = c.np
    f = PF(c, cls, l, msk=msk, newz=newz)
    b = f.b
    X, Y = c.real('X', f.di), c.real('Y', f.di)
    b.prox_g = lambda V: X.copy()
    b.var_y(f.F(Y))
    pts = []
    pc = c.const(csc.vals(f.di, 21))

    def Pcn(V):
        pts.append(V.copy())
        return V + pc
    b.Pcn = Pcn
    b.solve()
    st = b.itstat[0]
    c.eq('DFid', st.DFid, f.f(X))
    c.eq('Cnstr', st.Cnstr, np.sqrt(np.sum(pc * pc)))
    c.eq('constraint evaluated at', pts[-1], X)
    d2 = np.sum((X - Y) ** 2)
    c.eq('Rsdl', st.Rsdl, d2 if f.conv else np.sqrt(d2))


@reg.case('reconstruct', [dict(cls='CnstrMOD', l='a'), dict(cls='WeightedCnstrMOD', l='b', newz=1)] +
          [dict(cls='ConvCnstrMOD', l=_l) for _l in ('1d', '1dk', '1dck', '2dcdk')] + [dict(cls='ConvCnstrMODMask', l='1dcd', newz=1)])
def reconstruct(c, cls, l, newz=0):
    np = c.np
    f = PF(c, cls, l, newz=newz, opts={'FastSolve': True})
    b = f.b
    X, Z = c.real('X', f.di), c.real('Z', f.di)
    b.prox_g = lambda V: X.copy()
    b.solve()
    c.eq('current', f.sig(b.reconstruct()), f.ZD(X))
    c.eq('given', f.sig(b.reconstruct(Z)), f.ZD(Z))


@reg.case('integer', [dict(cls=k, dt=d) for k in ('CnstrMOD', 'ConvCnstrMOD') for d in ('uint8', 'int64')])
def integer(c, cls, dt):
    """integer signals"""
    conv = cls.startswith('Conv')
    B = getattr(c.mod('sporco.pgm.' + ('ccmod' if conv else 'cmod')), cls)
    Z = c.const(csc.vals((2, 2, 1, 1, 2) if conv else (2, 2), 3))

    def make(S):
        return B(Z, S, (2, 1, 2) if conv else (2, 2), **({'dimK': 0} if conv else {}), opt=B.Options({'Verbose': False, 'MaxMainIter': 1, 'L': 50.0, 'RelStopTol': 0.0}))
    csc.intdiff(c, make, (2, 2), dt, ('X', 'Y'))
