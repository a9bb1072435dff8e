"""P12: the proximal gradient sparse coding solvers use the gradient, Hessian
and proximal map of the functional they report."""
from sx.run import Registry
from sx import csc
from checks.p06 import LAY as _LAY, lay, dimk, nbc_mask
reg = Registry()
MODULES = ['sporco.pgm.bpdn', 'sporco.pgm.cbpdn', 'sporco.pgm.pgm']
BOUNDS = ('arbitrary (symbolic) signals, masks, coefficient arrays, evaluation points and directions; signals of at '
          'most 12 samples, 3 channels, 2 signals, 3 filters; fixed rational dictionaries, weights and parameters')
LAY = dict(_LAY)
LM, L = 0.75, 2.0
STD = ('BPDN', 'WeightedBPDN')
CNV = ('ConvBPDN', 'ConvBPDNMask')


class Fac:
    def __init__(self, c, cls, l, w=None, msk=None, opts=None, newd=0, symw=True):
        self.c, self.cls = c, cls
        np = self.np = c.np
        o = {'Verbose': False, 'MaxMainIter': 1, 'L': L, 'RelStopTol': -1.0}
        o.update(opts or {})
        self.wl = 1.0
        if cls in STD:
            N, M, K = {'1d': (2, 3, 2), '1dodd': (3, 2, 1), '1dk': (2, 2, 2)}[l]
            self.xi, self.si = (M, K), (N, K)
            D, S = c.const(csc.vals((N, M), 3)), c.real('S', (N, K))
            D1 = D
            if newd:
                D1 = c.const(csc.vals((N, M), 8))
            self.Dx = lambda X: D1.dot(X)
            self.DTx = lambda R: D1.T.dot(R)
            if w:
                self.wl = o['L1Weight'] = csc.vals((M, K), 9) ** 2
            self.wt = 1.0
            args = [D, S, LM]
            kws = {}
            if msk:
                shp = {'full': (N, K), 'row': (N, 1), 'scalar': ()}[msk]
                W = c.real('W', shp, nonneg=True, hi=2)
                self.wt = W
                kws['W'] = W
            B = c.mod('sporco.pgm.bpdn')
            self.Si = S
            self.dimN = 0
        else:
            N, n, C, Cd, K, M = LAY[l]
            self.N, self.n = N, n
            dimN = self.dimN = len(N)
            dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
            self.xi, self.si = xi, si
            D, S = c.const(csc.vals(dsh, 5)), c.real('S', ssh)
            D1 = D.reshape(di)
            if newd:
                D1 = c.const(csc.vals(di, 8))
            self.Dx = lambda X: csc.Dmul(np, D1, X, dimN)
            self.DTx = lambda R: csc.DTmul(np, D1, R, dimN)
            if w:
                self.wl = o['L1Weight'] = csc.vals({'full': xi, 'M': (M,)}[w], 9) ** 2
            self.Si = S.reshape(si)
            kws = dict(dimK=dimk(C, Cd, K), dimN=dimN)
            args = [D, S, LM]
            self.wt = 1.0
            if msk:
                mk = c.real('W', {'ext': ssh, 'N': N, 'full': si}[msk], nonneg=True, hi=2)
                kws['W'] = mk
                self.wt = (mk.reshape(N + (1, 1, 1)) if msk == 'N' else mk.reshape(si)) ** 2
            B = c.mod('sporco.pgm.cbpdn')
        C_ = getattr(B, cls)
        self.opt = C_.Options(o)
        b = self.b = C_(*args, opt=self.opt, **kws)
        if newd:
            b.setdict(D1)
        if cls in STD:
            self.F = self.Fi = lambda x: x
        else:
            ff = c.mod('sporco.fft')
            ax = tuple(range(dimN))
            self.F = lambda x: ff.rfftn(x, None, ax)
            self.Fi = lambda x: ff.irfftn(x, N, ax)

    # documented functional
    def res(self, X):
        return self.Dx(X) - self.Si

    def f(self, X):
        return 0.5 * self.np.sum(self.wt * self.res(X) ** 2)

    def grad(self, X):
        return self.DTx(self.wt * self.res(X))

    def hess(self, H):
        return self.DTx(self.wt * self.Dx(H))

    def l1(self, X):
        return self.np.sum(self.np.abs(self.wl * X))


G = [dict(cls='BPDN', l=_l) for _l in ('1d', '1dodd', '1dk')] + [dict(cls='BPDN', l='1d', nd=1)]
G += [dict(cls='WeightedBPDN', l=_l, msk=_m) for _l, _m in (('1d', 'full'), ('1dk', 'row'), ('1dodd', 'full'), ('1d', None))]
LL = ('1d', '1dodd', '1dk', '1dc', '1dcd', '1dcdk', '2d', '2dodd', '2dck', '2dcd', '2dcd3')
G += [dict(cls='ConvBPDN', l=_l) for _l in LL] + [dict(cls='ConvBPDN', l='1dcd', nd=1), dict(cls='ConvBPDN', l='2d', nd=1)]
G += [dict(cls='ConvBPDNMask', l=_l, msk=_m) for _l, _m in (('1d', 'ext'), ('1dodd', 'N'), ('1dk', 'ext'), ('1dc', 'ext'), ('1dcd', 'ext'),
                                                            ('1dcdk', 'full'), ('2dodd', 'N'), ('2d', None), ('2dck', 'N'))]
G += [dict(cls='ConvBPDNMask', l='1dcd', msk='N', nd=1)]


@reg.case('gradient', G)
def gradient(c, cls, l, nd=0, msk=None):
    np = c.np
    f = Fac(c, cls, l, msk=msk, newd=nd)
    b = f.b
    V, H = c.real('V', f.xi), c.real('H', f.xi)
    c.keep(V, H)
    Vf, Hf = f.F(V), f.F(H)
    c.eq('gradient', b.grad_f(Vf), f.F(f.grad(V)))
    c.eq('hessian', b.hessian_f(Hf), f.F(f.hess(H)))
    c.unchanged()
    # the default evaluation point is the extrapolated variable
    if cls in STD:
        b.Y = V
    else:
        b.Yf = Vf
    c.eq('gradient at y', b.grad_f(), f.F(f.grad(V)))


@reg.case('smooth term', G)
def smooth(c, cls, l, nd=0, msk=None):
    """Value used by the line search: the data fidelity (of the spectrum as
    stored, for the frequency domain solvers)."""
    np = c.np
    f = Fac(c, cls, l, msk=msk, newd=nd)
    b = f.b
    V, H = c.real('V', f.xi), c.real('H', f.xi)
    if cls in STD:
        c.eq('f', b.obfn_f(V), f.f(V))
        b.X = V
        c.eq('f at the current iterate', b.obfn_f(), f.f(V))
        ex = f.f(V) + np.sum(f.grad(V) * H) + 0.5 * np.sum(H * f.hess(H))
        c.eq('expansion', b.obfn_f(V + H), ex)
        c.eq('linear', b.eval_linear_approx(H, V), np.sum(H * V))
    else:
        R = f.F(np.sqrt(f.wt) * f.res(V) if msk else f.res(V))
        c.eq('f', b.obfn_f(f.F(V)), 0.5 * np.sum(np.real(np.conj(R) * R)))
        b.Xf = f.F(V)
        c.eq('f at the current iterate', b.obfn_f(), 0.5 * np.sum(np.real(np.conj(R) * R)))
        Hf, Gf = f.F(H), f.F(f.grad(V))
        c.eq('linear', b.eval_linear_approx(Hf, Gf), np.sum(np.real(np.conj(Hf) * Gf)))


P = [dict(cls='BPDN', l='1d'), dict(cls='BPDN', l='1d', w=1), dict(cls='BPDN', l='1dk', nn=1), dict(cls='WeightedBPDN', l='1dk', w=1, nn=1)]
P += [dict(cls='ConvBPDN', l='1dk'), dict(cls='ConvBPDN', l='1dk', w='full'), dict(cls='ConvBPDN', l='1dc', w='M', nn=1),
      dict(cls='ConvBPDN', l='2d', nbc=1), dict(cls='ConvBPDN', l='2dm1' if '2dm1' in LAY else '2d', nbc=1, nn=1),
      dict(cls='ConvBPDN', l='1dcd', nbc=1, w='full'), dict(cls='ConvBPDNMask', l='1dcd', w='full', nn=1)]


@reg.case('step', P)
def stepcase(c, cls, l, nn=0, nbc=0, w=None):
    """One gradient step from an arbitrary state."""
    np = c.np
    o = {'FastSolve': True, 'NonNegCoef': bool(nn)}
    if nbc:
        o['NoBndryCross'] = True
    f = Fac(c, cls, l, w=w, opts=o)
    b = f.b
    prox = b.prox_g
    Y, V1 = c.real('Y', f.xi), c.real('V1', f.xi)
    got = []

    def cutprox(V):
        got.append(V.copy())
        return prox(V1.copy())
    b.prox_g = cutprox
    if cls in STD:
        b.Y = Y.copy()
    else:
        b.Yf = f.F(Y)
    ret = b.solve()
    c.eq('gradient step', got[0], Y - f.grad(Y) / L)
    X = csc.soft(np, V1, LM / L * f.wl)
    if nn:
        X = np.where(X > 0, X, 0.0)
    if nbc:
        X = X * nbc_mask(np, f.xi, f.n, f.dimN)
    c.eq('proximal step', b.X, X)
    c.eq('returned', ret, X)
    c.eq('coefficients', b.getcoef(), X)
    if cls in CNV:
        c.eq('spectrum', b.Xf, f.F(b.X))


O = [dict(cls='BPDN', l='1d', w=1), dict(cls='BPDN', l='1dk'), dict(cls='WeightedBPDN', l='1d', msk='full', w=1),
     dict(cls='WeightedBPDN', l='1d', msk='row')]
O += [dict(cls='ConvBPDN', l=_l) for _l in LL] + [dict(cls='ConvBPDN', l=_l, w='full') for _l in ('1dk', '2dcd')]
O += [dict(cls='ConvBPDNMask', l=_l, msk=_m) for _l, _m in (('1d', 'ext'), ('1dodd', 'N'), ('1dk', 'ext'), ('1dcdk', 'full'), ('2dck', 'N'))]
O += [dict(cls='ConvBPDNMask', l='2d', msk='ext', w='full'), dict(cls='ConvBPDN', l='1dcd', nd=1), dict(cls='BPDN', l='1d', nd=1)]


@reg.case('objective', O)
def objective(c, cls, l, w=None, msk=None, nd=0):
    np = c.np
    f = Fac(c, cls, l, w=w, msk=msk, newd=nd)
    b = f.b
    X = c.real('X', f.xi)
    b.prox_g = lambda V: X.copy()
    Y = c.real('Y', f.xi)
    if cls in STD:
        b.Y = Y.copy()
    else:
        b.Yf = f.F(Y)
    b.solve()
    st = b.itstat[0]
    c.eq('DFid', st.DFid, f.f(X))
    c.eq('RegL1', st.RegL1, f.l1(X))
    c.eq('ObjFun', st.ObjFun, f.f(X) + LM * f.l1(X))
    if cls in STD:
        c.eq('Rsdl', st.Rsdl, np.sqrt(np.sum((X - Y) ** 2)))
    else:
        c.eq('Rsdl', st.Rsdl, np.sum((X - Y) ** 2))


@reg.case('reconstruct', [dict(cls=_c, l=_l, nd=_n) for _c, _l, _n in
                          (('BPDN', '1d', 0), ('BPDN', '1dodd', 1), ('WeightedBPDN', '1dk', 0), ('ConvBPDN', '1d', 0),
                           ('ConvBPDN', '1dodd', 1), ('ConvBPDN', '1dcdk', 0), ('ConvBPDN', '2dck', 0), ('ConvBPDNMask', '2dcd3', 0),
                           ('ConvBPDNMask', '1dc', 1))])
def reconstruct(c, cls, l, nd):
    np = c.np
    f = Fac(c, cls, l, newd=nd)
    b = f.b
    X, Z = c.real('X', f.xi), c.real('Z', f.xi)
    b.prox_g = lambda V: X.copy()
    b.opt['FastSolve'] = True
    b.solve()
    c.keep(Z)

    def shp(a):
        # the filter axis is removed
        return a if cls in STD else a.reshape(f.si[:-1])
    c.eq('current', b.reconstruct(), shp(f.Dx(X)))
    c.eq('given', b.reconstruct(Z), shp(f.Dx(Z)))
    c.unchanged()


@reg.case('monotone', [dict(cls=_c, l=_l) for _c, _l in (('BPDN', '1dodd'), ('ConvBPDN', '1d'), ('ConvBPDNMask', '1d'))], paths=20)
def monotone(c, cls, l):
    """The returned coefficients are those whose objective is reported."""
    np = c.np
    f = Fac(c, cls, l, opts={'Monotone': True, 'MaxMainIter': 2})
    b = f.b
    k = []

    def prox(V):
        k.append(1)
        # second candidate near zero, or any multiple of a direction
        a = c.real('a%d' % len(k), (), lo=-2, hi=2)
        return a * c.const(csc.vals(f.xi, len(k)))
    b.prox_g = prox
    b.rsdl = lambda: 1.0
    ret = b.solve()
    c.eq('reported', b.itstat[1].ObjFun, f.f(ret) + LM * f.l1(ret))
    c.le('non-increasing', b.itstat[1].ObjFun, b.itstat[0].ObjFun)


@reg.case('integer', [dict(cls=k, dt=d) for k in ('BPDN', 'WeightedBPDN', 'ConvBPDN', 'ConvBPDNMask') for d in ('uint8', 'int64')])
def integer(c, cls, dt):
    """integer signals"""
    conv = cls.startswith('Conv')
    B = getattr(c.mod('sporco.pgm.' + ('cbpdn' if conv else 'bpdn')), cls)
    D = c.const(csc.vals((2, 1, 2) if conv else (2, 2), 3))
    par = {'WeightedBPDN': (c.const(csc.vals((2, 1), 5) ** 2),), 'ConvBPDNMask': (c.const(csc.vals((2, 2), 5)),)}.get(cls, ())

    def make(S):
        return B(D, S, 0.3, *par, opt=B.Options({'Verbose': False, 'MaxMainIter': 1, 'L': 50.0, 'RelStopTol': 0.0}))
    csc.intdiff(c, make, (2, 2) if conv else (2, 1), dt, ('X', 'Y'))
