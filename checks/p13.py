"""P13: one iteration of each ADMM dictionary update solver from an arbitrary
state solves the documented subproblems; statistics, operators, residuals and
reconstructions are those of the documented problem."""
from sx.swap import swapped
from sx.run import Registry
from sx import csc
from checks.p06 import LAY as _LAY, lay, cut
reg = Registry()
MODULES = ['sporco.admm.cmod', 'sporco.admm.ccmod', 'sporco.admm.ccmodmd', 'sporco.admm.admm']
BOUNDS = ('one iteration from an arbitrary (symbolic) primal/dual state and signal, preceded in some cases by a '
          'penalty parameter change or a coefficient replacement; signals of at most 12 samples, 3 channels, '
          '2 signals, 3 filters; fixed rational coefficient maps; iterative linear solves exact after at most 3 steps')
LAY = dict(_LAY)
LAY['1dck'] = ((2,), (2,), 2, 1, 2, 2)
LAY['2dcdk'] = ((2, 2), (1, 2), 2, 2, 2, 2)
LAY['1dk1'] = ((3,), (2,), 1, 1, 2, 1)
LAY['1dt'] = ((2,), (1,), 1, 1, 1, 2)
RHO = 2.0


def dlay(l):
    """-> N, n, C, Cd, K, M, external signal shape, dictionary size, internal
    signal, coefficient and dictionary shapes"""
    N, n, C, Cd, K, M = LAY[l]
    ssh = N + ((C,) if C > 1 else ()) + ((K,) if K > 1 else ())
    dsz = n + ((Cd,) if Cd > 1 else ()) + (M,)
    Cx = C if Cd == 1 else 1
    return N, n, C, Cd, K, M, ssh, dsz, N + (C, K, 1), N + (Cx, K, M), N + (Cd, 1, M)


def ddimk(C, Cd, K):
    return 1 if K > 1 else 0


def XTfull(np, Z, R, Cd, dimN):
    """adjoint of D -> sum_m d_m * z_m for D supported on the whole domain"""
    N = Z.shape[:dimN]
    return csc.XTmul(np, Z, R, N + (Cd,), dimN)


class DF:
    """A convolutional dictionary update solver and its reference operators.
    method: ism, cg, cns; msk: mask kind or None for the unmasked problem"""

    def __init__(self, c, method, l, msk=None, zm=0, opts=None, state=True, newz=0, fixS=0, cx=0):
        self.cx = cx
        inp = c.cplx if cx else c.real
        cc = (lambda h, k: c.const(csc.vals(h, k) + 1j * csc.vals(h, k + 1), 'complex128')) if cx else (lambda h, k: c.const(csc.vals(h, k)))
        self.c, self.method, self.msk = c, method, msk
        np = self.np = c.np
        N, n, C, Cd, K, M, ssh, dsz, si, zi, di = dlay(l)
        self.N, self.n, self.C, self.Cd, self.K, self.M = N, n, C, Cd, K, M
        self.si, self.zi, self.di, self.dsz = si, zi, di, dsz
        dimN = self.dimN = len(N)
        S, Z = (c.const(np.zeros(ssh)) if fixS == 2 else c.const(csc.vals(ssh, 3))) if fixS else inp('S', ssh), cc(zi, 5)
        self.Si = S.reshape(si)
        self.Z = Z
        o = {'Verbose': False, 'MaxMainIter': 1, 'rho': RHO, 'RelStopTol': 0.0, 'AutoRho': {'Enabled': False},
             'ZeroMean': bool(zm)}
        o.update(opts or {})
        self.Nb = (C if Cd == 1 else 1) * K
        if msk and method != 'cns':
            self.ysh = N + (Cd, 1, M + self.Nb)
            self.ush = self.ysh
        else:
            self.ysh = di
            self.ush = di + (self.Nb,) if method == 'cns' else di
        if state:
            o['Y0'], o['U0'] = inp('Y0', self.ysh), inp('U0', self.ush)
        self.wt = 1.0
        if msk:
            B = c.mod('sporco.admm.ccmodmd')
            cl = {'ism': 'ConvCnstrMODMaskDcpl_IterSM', 'cg': 'ConvCnstrMODMaskDcpl_CG',
                  'cns': 'ConvCnstrMODMaskDcpl_Consensus'}[method]
            mk = c.real('W', {'ext': ssh, 'N': N, 'full': si, 'C': N + (C, 1, 1), 'K': N + (1, K, 1)}[msk], nonneg=True, hi=2)
            self.W = mk.reshape(N + (1, 1, 1)) if msk == 'N' else mk.reshape(si) if msk in ('ext', 'full') else mk
            args = [Z, S, mk, dsz]
        else:
            B = c.mod('sporco.admm.ccmod')
            cl = {'ism': 'ConvCnstrMOD_IterSM', 'cg': 'ConvCnstrMOD_CG', 'cns': 'ConvCnstrMOD_Consensus'}[method]
            args = [Z, S, dsz]
        C_ = getattr(B, cl)
        self.opt = C_.Options(o)
        self.b = C_(*args, opt=self.opt, dimK=ddimk(C, Cd, K), dimN=dimN)
        if newz:
            self.Z = cc(zi, 7)
            self.b.setcoef(self.Z)
        self.zm = zm
        # constraint projection (decided by P05)
        self.Pcn = c.mod('sporco.cnvrep').getPcn(dsz, N, dimN=dimN, dimC=1 if Cd > 1 else 0, zm=bool(zm))

    def ZD(self, X):
        """sum_m d_m * z_m for a (zero padded) dictionary -> internal signal"""
        return csc.Dmul(self.np, X, self.Z, self.dimN)

    def ZT(self, R):
        return XTfull(self.np, self.Z, R, self.Cd, self.dimN)

    def blocks(self, a):
        """signal array -> block axis of the consensus problem, last"""
        np, dn = self.np, self.dimN
        if self.Cd == 1:
            # channels (slow) and signals (fast) are separate blocks
            q = a.reshape(a.shape[:dn] + (1, self.Nb) + a.shape[dn + 2:])
        else:
            q = a
        return q

    def sig(self, q):
        """solver signal layout -> internal layout"""
        return q.reshape(self.si)

    def sep(self, Y):
        """two block variable -> (signal in internal layout, dictionary)"""
        np = self.np
        Y0 = np.swapaxes(Y[..., :self.Nb], self.dimN + 1, self.dimN + 2)
        return Y0.reshape(self.si), Y[..., self.Nb:]

    def cat(self, S0, D):
        np = self.np
        q = S0.reshape(self.N + (self.Cd, self.Nb, 1))
        return np.concatenate((np.swapaxes(q, self.dimN + 1, self.dimN + 2), D), axis=-1)


def zpart(np, Z, i, f):
    """coefficient maps of consensus block i, internal layout"""
    q = f.blocks(Z)
    return q[..., i:i + 1, :]


E_ = []
for _m in ('ism', 'cg', 'cns'):
    E_ += [dict(method=_m, l=_l) for _l in ('1d', '1dodd', '1dk', '1dc', '1dcd', '2dcdk', '1dck', '2dodd') if not (_m == 'cg' and _l not in ('1dt',))]
    if _m != 'cg':
        E_ += [dict(method=_m, l='1dk', zm=1, rlx=1.0), dict(method=_m, l='1dck', newz=1), dict(method=_m, l='2dcdk', newz=1, change=1),
               dict(method=_m, l='1d', change=1, chk=1), dict(method=_m, l='1dcd', chk=1), dict(method=_m, l='1dk', chk=1)]


for _m in ('ism', 'cns'):       # complex coefficient maps and signals
    E_ += [dict(method=_m, l=_l, cx=1) for _l in ('1d', '1dk', '1dc', '1dcd', '1dck')]
    E_ += [dict(method=_m, l='1dk', cx=1, chk=1, newz=1), dict(method=_m, l='1dodd', cx=1, zm=1, change=1)]


@reg.case('unmasked', E_, limit=120)
def unmasked(c, method, l, zm=0, rlx=1.75, newz=0, change=0, chk=0, cx=0):
    np = c.np
    o = dict(RelaxParam=rlx)
    if chk:
        o['LinSolveCheck'] = True
    if change:
        o['AutoRho'] = {'Enabled': True, 'Period': 2, 'Scaling': 2.0, 'AutoScaling': False, 'RsdlRatio': 1.5, 'RsdlTarget': 1.0}
    f = DF(c, method, l, zm=zm, opts=o, newz=newz, cx=cx)
    b = f.b
    rho = RHO
    Y0, U0 = f.opt['Y0'], f.opt['U0']
    if change:
        b.update_rho(1, 100.0, 1.0)
        rho, U0 = rho * 2.0, U0 / 2.0
    A, keep = cut(c, b, f.ush, cx)
    c.keep(f.opt['Y0'], f.opt['U0'], f.Z)
    if chk:
        b.eval_objfn = lambda: (0.0,) * 2
        b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    else:
        b.opt['FastSolve'] = True
        b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    b.solve()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    if method != 'cns':
        c.eq('x step', f.ZT(f.ZD(X) - f.Si) + rho * (X - Y0 + U0), np.zeros(f.di))
        c.eq('relaxed', keep['AX'], rlx * X + (1 - rlx) * Y0)
        V = A + U0
        c.eq('u step', U, U0 + A - Y)
    else:
        Sb = f.blocks(f.Si)
        for i in range(f.Nb):
            Zi = zpart(np, f.Z, i, f)
            Xi = X[..., i]
            R = csc.Dmul(np, Xi, Zi, f.dimN) - Sb[..., i:i + 1, :]
            c.eq('x step %d' % i, XTfull(np, Zi, R, f.Cd, f.dimN) + rho * (Xi - Y0 + U0[..., i]), np.zeros(f.di))
            c.eq('relaxed', keep['AX'][..., i], rlx * Xi + (1 - rlx) * Y0)
            c.eq('u step', U[..., i], U0[..., i] + A[..., i] - Y)
        V = np.sum(A + U0, axis=-1) / f.Nb
    c.eq('y step', Y, f.Pcn(V))
    c.eq('dictionary', b.getdict(), f.c.mod('sporco.cnvrep').bcrop(Y, f.dsz, f.dimN))
    c.eq('uncropped dictionary', b.getdict(crop=False), Y)
    c.unchanged('initial values and coefficients not modified')
    if chk and method != 'cns':
        c.eq('linear solve', b.itstat[0].XSlvRelRes, 0.0)


# iterative linear solver: small systems, exact in few steps
@reg.case('cg', [dict(l='1dt', msk=None), dict(l='1dt', msk='N')], limit=200)
def cg(c, l, msk):
    np = c.np
    f = DF(c, 'cg', l, msk=msk, opts=dict(RelaxParam=1.0, FastSolve=True))
    b = f.b
    la = c.mod('sporco.linalg')
    # the iteration itself is decided by P02: here the system it is given
    got = []

    def solve(ah, rho, b, axisM=4, axisK=3, tol=1e-5, mit=1000, isn=None):
        bb = b
        got.append((ah, rho, bb.copy(), axisM, axisK, tol, mit, isn))
        return la.solvemdbi_ism(ah, rho, bb, axisM, axisK), 5
    mod = c.mod('sporco.admm.ccmodmd' if msk else 'sporco.admm.ccmod')
    with swapped(mod, ('sporco.linalg', 'solvemdbi_cg', solve)):
        b.solve()
    c.true('solved once', len(got) == 1)
    X, Y0, U0 = b.var_x(), f.opt['Y0'], f.opt['U0']
    if msk:
        V = Y0 - U0
        S0, D0 = f.sep(V)
        c.eq('x step', f.ZT(f.ZD(X) - f.Si - S0) + X - D0, np.zeros(f.di))
    else:
        c.eq('x step', f.ZT(f.ZD(X) - f.Si) + RHO * (X - Y0 + U0), np.zeros(f.di))
    c.eq('tolerance', got[0][5], f.opt['CG', 'StopTol'])
    c.true('limit', got[0][6] == f.opt['CG', 'MaxIter'])


M_ = []
for _l, _k in (('1d', 'ext'), ('1dodd', 'N'), ('1dk', 'ext'), ('1dc', 'ext'), ('1dcd', 'ext'), ('2dcdk', 'full'), ('1dck', 'ext'), ('1dck', 'K'),
               ('1dck', 'C'), ('2dodd', 'N'), ('1dk', 'N'), ('1dck', 'N')):
    M_ += [dict(method=_m, l=_l, msk=_k) for _m in ('ism', 'cns')]
M_ += [dict(method=_m, l='1dk', msk='ext', zm=1, rlx=1.0) for _m in ('ism', 'cns')]
M_ += [dict(method=_m, l='1dcd', msk='ext', newz=1, change=1) for _m in ('ism', 'cns')]
M_ += [dict(method='ism', l='1dck', msk='ext', newz=1)]
M_ += [dict(method='ism', l=_l, msk='ext', change=_h, chk=1) for _l, _h in (('1d', 1), ('1dk', 0), ('1dcd', 0), ('1dck', 0))]


@reg.case('masked', M_, limit=120)
def masked(c, method, l, msk, zm=0, rlx=1.75, newz=0, change=0, chk=0):
    np = c.np
    o = dict(RelaxParam=rlx, LinSolveCheck=bool(chk))
    if change:
        o['AutoRho'] = {'Enabled': True, 'Period': 2, 'Scaling': 2.0, 'AutoScaling': False, 'RsdlRatio': 1.5, 'RsdlTarget': 1.0}
    f = DF(c, method, l, msk=msk, zm=zm, opts=o, newz=newz)
    b = f.b
    rho = RHO
    Y0, U0 = f.opt['Y0'], f.opt['U0']
    if method == 'cns':
        # arbitrary state of the second block as well
        y1, u1 = c.real('Y1', f.si), c.real('U1', f.si)
        b.Y1, b.U1 = y1.reshape(b.Y1.shape).copy(), u1.reshape(b.U1.shape).copy()
    if change:
        b.update_rho(1, 100.0, 1.0)
        rho, U0 = rho * 2.0, U0 / 2.0
        if method == 'cns':
            # scaled dual variable of the second block
            b.U1 = u1.reshape(b.U1.shape).copy()
    b.opt['FastSolve'] = True
    b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    W2 = f.W ** 2
    if chk:
        b.xstep()
        c.eq('linear solve', b.xrrs, 0.0)
        return
    if method != 'cns':
        A, keep = cut(c, b, f.ush)
        b.solve()
        X, Y, U = b.var_x(), b.var_y(), b.var_u()
        S0, D0 = f.sep(Y0 - U0)
        c.eq('x step', f.ZT(f.ZD(X) - f.Si - S0) + X - D0, np.zeros(f.di))
        full = f.cat(f.ZD(X), X)
        cv = f.cat(f.Si, np.zeros(f.di))
        c.eq('relaxed', keep['AX'], rlx * full + (1 - rlx) * (Y0 + cv))
        V0, V1 = f.sep(A + U0)
        n0, n1 = f.sep(Y)
        # minimiser of 1/2||W y||^2 + rho/2||y - (v - s)||^2
        c.eq('y0 step', W2 * n0 + rho * (n0 - V0 + f.Si), np.zeros(f.si))
        c.eq('y1 step', n1, f.Pcn(V1))
        c.eq('u step', U, U0 + A - Y - cv)
        c.eq('dictionary', b.getdict(crop=False), n1)
        return
    A, A1 = c.real('AXcut', f.ush), c.real('AX1cut', f.si)
    orig = b.relax_AX
    keep = {}

    def relax():
        orig()
        keep['AX'], keep['AX1'] = b.AX, b.AX1
        b.AX, b.AX1 = A.copy(), A1.reshape(b.AX1.shape).copy()
    b.relax_AX = relax
    b.solve()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    Sb, y1b, u1b = f.blocks(f.Si), f.blocks(y1), f.blocks(u1)
    ax1 = []
    for i in range(f.Nb):
        Zi = zpart(np, f.Z, i, f)
        Xi = X[..., i]
        sl = (Ellipsis, slice(i, i + 1), slice(None))
        DX = csc.Dmul(np, Xi, Zi, f.dimN)
        R = DX - Sb[sl] - y1b[sl] + u1b[sl]
        c.eq('x step %d' % i, XTfull(np, Zi, R, f.Cd, f.dimN) + (Xi - Y0 + U0[..., i]), np.zeros(f.di))
        c.eq('relaxed', keep['AX'][..., i], rlx * Xi + (1 - rlx) * Y0)
        c.eq('u step', U[..., i], U0[..., i] + A[..., i] - Y)
        c.eq('relaxed second block', f.blocks(keep['AX1'].reshape(f.si))[sl], rlx * DX + (1 - rlx) * (y1b[sl] + Sb[sl]))
    c.eq('y step', Y, f.Pcn(np.sum(A + U0, axis=-1) / f.Nb))
    n1 = f.sig(b.Y1)
    c.eq('y1 step', W2 * n1 + rho * (n1 - (A1 + u1) + f.Si), np.zeros(f.si))
    c.eq('u1 step', f.sig(b.U1), u1 + A1 - n1 - f.Si)
    c.eq('dictionary', b.getdict(crop=False), Y)


@reg.case('masked rho', [dict(l='1dk')])
def maskedrho(c, l):
    """A penalty parameter change rescales every scaled dual variable."""
    np = c.np
    f = DF(c, 'cns', l, msk='ext', opts=dict(AutoRho={'Enabled': True, 'Period': 2, 'Scaling': 2.0, 'AutoScaling': False,
                                                      'RsdlRatio': 1.5, 'RsdlTarget': 1.0}))
    b = f.b
    u1 = c.real('U1', f.si)
    b.U1 = u1.reshape(b.U1.shape).copy()
    b.update_rho(1, 100.0, 1.0)
    c.eq('rho', b.rho, RHO * 2.0)
    c.eq('U', b.U, f.opt['U0'] / 2.0)
    c.eq('U1', f.sig(b.U1), u1 / 2.0)


O = []
for _m in ('ism', 'cns'):
    for _x in (0, 1):
        O += [dict(method=_m, l=_l, aux=_x) for _l in ('1d', '1dodd', '1dk', '1dc', '2dcdk', '1dck')]
        O += [dict(method=_m, l=_l, aux=_x, msk=_k) for _l, _k in (('1dodd', 'N'), ('1dk', 'ext'), ('1dck', 'ext'), ('1dck', 'C'), ('2dcdk', 'full'))]
    O += [dict(method=_m, l='1dk', aux=0, zm=1, newz=1), dict(method=_m, l='1dk', aux=1, zm=1, msk='ext', newz=1)]


O += [dict(method=_m, l=_l, aux=_x, cx=1) for _m in ('ism', 'cns') for _l in ('1d', '1dk', '1dcd') for _x in (0, 1)]


@reg.case('objective', O)
def objective(c, method, l, aux, msk=None, zm=0, newz=0, cx=0):
    """Reported data fidelity and constraint violation."""
    np = c.np
    o = dict(RelaxParam=1.75)
    o['AuxVarObj'] = bool(aux)
    f = DF(c, method, l, msk=msk, zm=zm, opts=o, newz=newz, cx=cx)
    b = f.b
    two = msk and method != 'cns'
    Y1 = (c.cplx if cx else c.real)('Yn', f.ysh)

    def ystep():
        b.Y = Y1.copy()
        if msk and not two:
            b.Y1 = c.real('Y1n', f.si).reshape(b.Y1.shape)
    b.ystep = ystep
    # the constraint projection of the reported point (decided by P05)
    pts = []
    pc = c.const(csc.vals(f.di, 21))

    def Pcn(V):
        pts.append(V.copy())
        return V + pc
    b.Pcn = Pcn
    b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    b.solve()
    X = b.var_x()
    st = b.itstat[0]
    W = f.W if msk else 1.0
    if two and aux:
        y0, y1 = f.sep(Y1)
        dfd = 0.5 * np.sum((W * y0) ** 2)
        pt = y1
    elif method == 'cns' and not aux:
        Sb, Wb = f.blocks(f.Si), f.blocks(W + np.zeros(f.si)) if msk else None
        dfd = 0.0
        for i in range(f.Nb):
            sl = (Ellipsis, slice(i, i + 1), slice(None))
            R = csc.Dmul(np, X[..., i], zpart(np, f.Z, i, f), f.dimN) - Sb[sl]
            dfd = dfd + 0.5 * csc.sumsq(np, R * Wb[sl] if msk else R)
        pt = None
    else:
        v = Y1 if aux else X
        dfd = 0.5 * csc.sumsq(np, W * (f.ZD(v) - f.Si))
        pt = v
    c.eq('DFid', st.DFid, dfd)
    if pt is not None:
        c.eq('constraint evaluated at', pts[-1], pt)
        c.eq('Cnstr', st.Cnstr, np.sqrt(np.sum(pc * pc)))


R_ = [dict(method=_m, l=_l, msk=_k) for _m in ('ism',) for _l, _k in (('1dt', None), ('1dk1', None), ('1dk1', 'ext'), ('1dck', 'ext'), ('2dcdk', 'full'), ('1dodd', 'N'))]
R_ += [dict(method='cns', l=_l, msk=_k) for _l, _k in (('1dt', None), ('1dk1', None), ('1dk1', 'ext'), ('1dck', 'ext'), ('2dcdk', 'full'))]
R_ = [dict(d, std=s) for d in R_ for s in (0, 1)]


@reg.case('zero', [dict(d) for d in R_ if not d['std']] + [dict(method='cg', l='1dt', msk=None), dict(method='cg', l='1dk1', msk='ext')])
def zero(c, method, l, msk, std=0):
    """a zero signal and a zero state: nothing to normalise by"""
    np = c.np
    f0 = DF(c, method, l, msk=msk, state=False, fixS=2)
    z = dict(Y0=np.zeros(f0.ysh), U0=np.zeros(f0.ush))
    for sr in (False, True):
        f = DF(c, method, l, msk=msk, state=False, fixS=2, opts=dict(z, AbsStopTol=0.25, RelStopTol=0.5, AutoRho={'Enabled': False, 'StdResiduals': sr}))
        f.b.solve()
        st = f.b.itstat[-1]
        r, s, ep, ed = f.b.compute_residuals()
        for nm, v in (('primal', st.PrimalRsdl), ('dual', st.DualRsdl), ('primal again', r), ('dual again', s)):
            c.eq(nm, v, 0.0)
        c.true('tolerances', (ep >= 0.25) & (ed >= 0.25))
        c.eq('dictionary', f.b.getdict(crop=False), np.zeros(f.b.getdict(crop=False).shape))


@reg.case('residuals', R_, limit=120)
def residuals(c, method, l, msk, std):
    """Residuals, normalisation and tolerances of an arbitrary state, from
    the documented constraint."""
    np = c.np
    at, rt, rho = 0.25, 0.5, RHO
    f = DF(c, method, l, msk=msk, opts=dict(AbsStopTol=at, RelStopTol=rt, AutoRho={'Enabled': False, 'StdResiduals': bool(std)}), state=False, fixS=1)
    b = f.b
    two = msk and method != 'cns'

    def few(nm, shape, pos):
        n = 1
        for q in shape:
            n *= q
        v = c.real(nm, (len(pos),))
        return np.array([v[pos.index(i)] if i in pos else 0.0 for i in range(n)]).reshape(shape)

    def nrm2(*v):
        return sum(np.sum(q * q) for q in v)
    AX = few('A', f.ush, [0, 2])
    Y, U, Yp = few('Y', f.ysh, [1]), few('U', f.ush, [0, 3]), few('Yp', f.ysh, [1, 2])
    b.AXnr, b.Y, b.U, b.Yprev = AX.copy(), Y.copy(), U.copy(), Yp.copy()
    b.AX = b.AXnr
    S = f.Si
    # an arbitrary signal, fixed for the norm comparison
    nx = 1
    for q in f.di:
        nx *= q
    nc = 1
    for q in f.ush:
        nc *= q
    if method == 'cns':
        nx *= f.Nb
        pr = [AX[..., i] - Y for i in range(f.Nb)]
        ny = f.Nb * nrm2(Y)
    if msk and method == 'cns':
        a1, y1, u1 = few('A1', f.si, [1]), few('Y1', f.si, [0]), few('U1', f.si, [1])
        shp = b.Y1.shape
        b.AX1nr, b.Y1, b.U1 = a1.reshape(shp), y1.reshape(shp), u1.reshape(shp)
        r = nrm2(a1 - y1 - S, *pr)
        u1b = f.blocks(u1)
        s = 0.0
        for i in range(f.Nb):
            Zi = zpart(np, f.Z, i, f)
            s = s + nrm2(XTfull(np, Zi, u1b[..., i:i + 1, :], f.Cd, f.dimN) + U[..., i])
        nr = (nrm2(AX, a1), ny + nrm2(y1), nrm2(S))
        sn = nrm2(U, u1)
        q = 1
        for z in f.si:
            q *= z
        nc += q
    elif method == 'cns':
        r, s = nrm2(*pr), f.Nb * nrm2(Yp - Y)
        nr = (nrm2(AX), ny)
        sn = nrm2(U)
    elif two:
        r = nrm2(AX - Y - f.cat(S, np.zeros(f.di)))
        s0, d0 = f.sep(U)
        s = nrm2(f.ZT(s0) + d0)
        nr = (nrm2(AX), nrm2(Y), nrm2(S))
        sn = nrm2(U)
    else:
        r, s, nr, sn = nrm2(AX - Y), nrm2(Yp - Y), (nrm2(AX), nrm2(Y)), nrm2(U)
    c.assume(sn >= 0.25)
    c.assume(nr[0] >= 0.25)
    R, Sd, ep, ed = b.compute_residuals()
    rn = nr[0]
    for z in nr[1:]:
        if c.branch(z > rn):
            rn = z
    rn, sn = np.sqrt(rn), rho * np.sqrt(sn)
    r, s = np.sqrt(r), rho * np.sqrt(s)
    if std:
        c.eq('primal', R, r)
        c.eq('dual', Sd, s)
        c.eq('primal tolerance', ep, np.sqrt(float(nc)) * at + rt * rn)
        c.eq('dual tolerance', ed, np.sqrt(float(nx)) * at + rt * sn)
    else:
        c.eq('primal', R * rn, r)
        c.eq('dual', Sd * sn, s)
        c.eq('primal tolerance', (ep - rt) * rn, np.sqrt(float(nc)) * at)
        c.eq('dual tolerance', (ed - rt) * sn, np.sqrt(float(nx)) * at)


@reg.case('operators', [dict(l=_l, msk=_k) for _l, _k in (('1d', 'N'), ('1dodd', 'N'), ('1dk', 'ext'), ('1dcd', 'ext'), ('1dck', 'ext'), ('2dcdk', 'full'))])
def operators(c, l, msk):
    np = c.np
    f = DF(c, 'ism', l, msk=msk, state=False)
    b = f.b
    X, Y = c.real('X', f.di), c.real('Y', f.ysh)
    c.keep(X, Y)
    c.eq('A', b.cnst_A(X), f.cat(f.ZD(X), X))
    y0, y1 = f.sep(Y)
    AT = b.cnst_AT(Y)
    c.eq('A^T', AT, f.ZT(y0) + y1)
    c.eq('adjoint', np.sum(AT * X), np.sum(Y * f.cat(f.ZD(X), X)))
    c.eq('B', b.cnst_B(Y), -Y)
    c.eq('c', f.sig(b.cnst_c0()), f.Si)
    c.eq('blocks', b.block_cat(*b.block_sep(Y)), Y)
    c.eq('block 0', f.sig(b.block_sep0(Y)), y0)
    c.eq('block 1', b.block_sep1(Y), y1)
    c.unchanged()


@reg.case('reconstruct', [dict(method=_m, l=_l, msk=_k, newz=_n) for _m, _l, _k, _n in
                          (('ism', '1d', None, 0), ('ism', '1dk', None, 1), ('ism', '2dcdk', None, 0), ('ism', '1dck', None, 0),
                           ('ism', '1dodd', 'N', 0), ('ism', '1dk', 'ext', 1), ('ism', '1dck', 'ext', 0), ('ism', '1dcd', 'ext', 0))])
def reconstruct(c, method, l, msk, newz):
    np = c.np
    f = DF(c, method, l, msk=msk, newz=newz, opts=dict(FastSolve=True))
    b = f.b
    b.ystep = lambda: None
    b.solve()
    Dn = c.real('Dn', f.di)
    c.eq('given', f.sig(b.reconstruct(Dn)), f.ZD(Dn))
    c.eq('current', f.sig(b.reconstruct()), f.ZD(b.var_x()))


# ------------------------------------------------------ standard problem

def cshape(l):
    return {'a': (2, 3, 2), 'b': (3, 2, 2), 'c': (2, 1, 3), 'd': (3, 1, 2)}[l]


@reg.case('standard', [dict(l=_l, rlx=_r, zm=_z, newz=_n, change=_h) for _l, _r, _z, _n, _h in
                       (('a', 1.75, 0, 0, 0), ('b', 1.0, 0, 0, 0), ('c', 1.5, 0, 1, 0), ('d', 1.5, 1, 0, 1), ('c', 1.75, 1, 1, 1), ('a', 1.5, 0, 0, 1), ('b', 1.75, 0, 1, 1),
                        ('c', 1.75, 1, 0, 0))])
def standard(c, l, rlx, zm, newz, change):
    np = c.np
    Nc, M, K = cshape(l)
    B = c.mod('sporco.admm.cmod')
    S, Z = c.real('S', (Nc, K)), c.const(csc.vals((M, K), 5))
    Y0, U0 = c.real('Y0', (Nc, M)), c.real('U0', (Nc, M))
    o = {'Verbose': False, 'MaxMainIter': 1, 'rho': RHO, 'RelaxParam': rlx, 'ZeroMean': bool(zm), 'Y0': Y0, 'U0': U0,
         'FastSolve': True,
         'AutoRho': {'Enabled': bool(change), 'Period': 2, 'Scaling': 2.0, 'AutoScaling': False, 'RsdlRatio': 1.5, 'RsdlTarget': 1.0}}
    opt = B.CnstrMOD.Options(o)
    b = B.CnstrMOD(Z, S, (M,), opt)
    rho = RHO
    if newz:
        Z = c.const(csc.vals((M, K), 8))
        b.setcoef(Z)
    if change:
        b.update_rho(1, 100.0, 1.0)
        rho, U0 = rho * 2.0, U0 / 2.0
    A, keep = cut(c, b, (Nc, M))
    b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    b.solve()
    X, Y, U = b.var_x(), b.var_y(), b.var_u()
    c.eq('x step', (X.dot(Z) - S).dot(Z.T) + rho * (X - Y0 + U0), np.zeros((Nc, M)))
    c.eq('relaxed', keep['AX'], rlx * X + (1 - rlx) * Y0)
    c.eq('u step', U, U0 + A - Y)
    c.eq('dictionary', b.getdict(), Y)
    V = A + U0
    if zm:
        V = V - np.sum(V, axis=0, keepdims=True) / Nc
    for m in range(M):
        n2 = np.sum(V[:, m] ** 2)
        if c.branch(n2 == 0.0):
            c.eq('y step', Y[:, m], np.zeros((Nc,)))
        else:
            # a positive multiple of v of unit norm
            c.eq('y step', Y[:, m] * np.sqrt(n2), V[:, m])


@reg.case('standard objective', [dict(l=_l, aux=_a, newz=_n) for _l in ('a', 'b', 'c') for _a in (0, 1) for _n in (0, 1)])
def stdobj(c, l, aux, newz):
    np = c.np
    Nc, M, K = cshape(l)
    B = c.mod('sporco.admm.cmod')
    S, Z = c.real('S', (Nc, K)), c.const(csc.vals((M, K), 5))
    Y0, U0, Yn = c.real('Y0', (Nc, M)), c.real('U0', (Nc, M)), c.real('Yn', (Nc, M))
    o = {'Verbose': False, 'MaxMainIter': 1, 'rho': RHO, 'Y0': Y0, 'U0': U0, 'AutoRho': {'Enabled': False}, 'AuxVarObj': bool(aux)}
    b = B.CnstrMOD(Z, S, (M,), B.CnstrMOD.Options(o))
    if newz:
        Z = c.const(csc.vals((M, K), 8))
        b.setcoef(Z)
    pc = c.const(csc.vals((Nc, M), 21))
    pts = []

    def Pcn(V):
        pts.append(V.copy())
        return V + pc
    b.Pcn = Pcn
    b.ystep = lambda: setattr(b, 'Y', Yn.copy())
    b.compute_residuals = lambda: (1.0, 1.0, 0.25, 0.25)
    b.solve()
    v = Yn if aux else b.var_x()
    c.eq('DFid', b.itstat[0].DFid, 0.5 * np.sum((v.dot(Z) - S) ** 2))
    c.eq('constraint evaluated at', pts[-1], v)
    c.eq('Cnstr', b.itstat[0].Cnstr, np.sqrt(np.sum(pc * pc)))


@reg.case('integer', [dict(cls=k, dt=d) for k in ('CnstrMOD', 'ConvCnstrMOD_IterSM', 'ConvCnstrMOD_Consensus') for d in ('uint8', 'int64')])
def integer(c, cls, dt):
    """integer signals"""
    conv = cls.startswith('Conv')
    B = getattr(c.mod('sporco.admm.' + ('ccmod' if conv else 'cmod')), cls)
    Z = c.const(csc.vals((2, 2, 1, 1, 2) if conv else (2, 2), 3))

    def make(S):
        o = {'Verbose': False, 'MaxMainIter': 1, 'AutoRho': {'Enabled': False}, 'FastSolve': True, 'rho': 1.5}
        return B(Z, S, (2, 1, 2) if conv else (2, 2), **({'dimK': 0} if conv else {}), opt=B.Options(o))
    csc.intdiff(c, make, (2, 2), dt)
