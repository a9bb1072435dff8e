"""P09: statistics reported by the ADMM sparse coding solvers are the values of
the documented functional, and reconstructions are the documented synthesis."""
from sx.run import Registry
from sx import csc, spec
from checks.fac import Fac, STD, ONE, TWO, TVS, PDS, PD2, LM, MU, EPS, GAM, l1
from checks.p07 import winsum
from checks.p06 import LAY, lay, dimk
reg = Registry()
MODULES = ['sporco.admm.bpdn', 'sporco.admm.cbpdn', 'sporco.admm.cbpdntv', 'sporco.admm.cbpdnin', 'sporco.admm.pdcsc']
BOUNDS = ('one iteration from an arbitrary (symbolic) state and signal, auxiliary variable arbitrary; '
          'signals of at most 12 samples, 3 channels, 2 signals, 3 filters; fixed rational dictionaries')

G = []
for _c in STD:
    G += [dict(cls=_c, l='1d', aux=a) for a in (0, 1)]
    G += [dict(cls=_c, l='1dodd', aux=0)]
G += [dict(cls=_c, l='1dk', aux=a, w=1) for _c in ('BPDN', 'BPDNJoint', 'ElasticNet', 'MinL1InL2Ball') for a in (0, 1)]
for _c in ONE[:-1] + TWO:
    G += [dict(cls=_c, l=_l, aux=a) for _l, a in (('1d', 0), ('1dodd', 1), ('1dk', 0), ('1dc', 1), ('1dcd', 0),
                                                  ('2d', 1), ('2dodd', 0), ('2dck', 0), ('2dcd', 1))]
    G += [dict(cls=_c, l='2dck', aux=1, w='ext'), dict(cls=_c, l='1dcd', aux=0, w='full')]
G += [dict(cls='ConvBPDNProjL1', l=_l, aux=a) for _l, a in (('1ds', 0), ('1ds', 1))]
G += [dict(cls=_c, l=_l, aux=a, gw=1) for _c in ('ConvBPDNGradReg', 'ConvL1L1Grd') for _l, a in (('1dk', 0), ('2d', 1))]
G += [dict(cls='ConvBPDNJoint', l=_l, aux=a, w21=q) for _l, a in (('1dc', 0), ('2dck', 1)) for q in (1, 2)]
G += [dict(cls=_c, l=_l, aux=a, msk=m) for _c in ('ConvBPDNMaskDcpl', 'ConvL1L1Grd')
      for _l, a, m in (('1d', 0, 'ext'), ('2dck', 1, 'ext'), ('2dck', 0, 'N'), ('2dcd', 1, 'ext'), ('1dk', 0, 'ext'))]
for _c in TVS:
    G += [dict(cls=_c, l=_l, aux=a) for _l, a in (('1d', 0), ('1dodd', 1), ('1dk', 0), ('1dc', 1), ('1dcd', 0),
                                                  ('2ds', 1), ('2dcds', 0))]
    G += [dict(cls=_c, l='1dcd', aux=a, tw=1, w='full') for a in (0, 1)]
for _c in PDS + PD2:
    G += [dict(cls=_c, l=_l, aux=a, B=_B) for _l, a, _B in (('1d', 0, 'sq'), ('1dk', 1, 'tall'), ('2ds', 0, 'sq'), ('1dodd', 1, 'row'))]
    G += [dict(cls=_c, l='1d', aux=1, B='tall', w='full')]
G += [dict(cls='ConvProdDictL1L1Grd', l='1d', aux=0, B='sq', gw=1),
      dict(cls='ConvProdDictL1L1GrdJoint', l='1dk', aux=1, B='sq', w21=2),
      dict(cls='ConvProdDictL1L1GrdJoint', l='1d', aux=0, B='sq', w21=1)]
G += [dict(cls=_c, l=_l, aux=0, nd=1) for _c in ONE[:-1] + TWO + TVS for _l in ('1dk',)]


def run(c, f, aux):
    """One iteration whose y step stores an arbitrary value."""
    b = f.b
    Y1 = c.real('Y1', f.ysh)

    def ystep():
        b.Y = Y1.copy()
    b.ystep = ystep
    b.compute_residuals = lambda: (0.5, 0.25, 0.125, 0.0625)
    b.solve()
    return Y1


@reg.case('objective', G, limit=120)
def objective(c, cls, l, aux, nd=0, **kw):
    np = c.np
    o = dict(rho=2.0, RelaxParam=1.5)
    two = cls in TWO + PD2 or cls == 'MinL1InL2Ball'
    if two:
        o['AuxVarObj'] = bool(aux)
    else:
        o['fEvalX'] = not aux
        o['gEvalY'] = bool(aux)
    f = Fac(c, cls, l, opts=o, newd=nd, dual=False, **kw)
    b = f.b
    Y = run(c, f, aux)
    X = b.var_x()
    dimN = f.dimN
    st = b.itstat[0]
    if two:
        if cls == 'MinL1InL2Ball':
            G0, G1 = f.sep(Y if aux else f.A(X))
        else:
            G0, G1 = f.sep(Y if aux else f.A(X) - f.cvec())
        F = X
    elif cls in TVS:
        Z = Y if aux else f.A(X)
        if cls == 'ConvBPDNRecTV':
            G1, G0 = b.block_sep0(Z), b.block_sep1(Z)
            F = b.block_sep0(Y) if aux else X
        else:
            G1, G0 = Z[..., -1], Z[..., :-1]
            F = Y[..., -1] if aux else X
    else:
        G0, G1 = None, (Y if aux else X)
        F = Y if aux else X
    want = f.functional(X, G0, G1, F)
    for k in want:
        c.eq(k, getattr(st, k), want[k])
    # distance to the constraint set
    if cls in ('ConvMinL1InL2Ball', 'MinL1InL2Ball'):
        # (the projection itself is decided by P01)
        Q = G0 - f.Si if cls == 'MinL1InL2Ball' else G0
        P = c.mod('sporco.prox').proj_l2(Q, EPS, axis=0 if cls == 'MinL1InL2Ball' else tuple(range(dimN)))
        e = P - Q
        c.eq('Cnstr', st.Cnstr, np.sqrt(np.sum(e * e)))
    if cls in ('BPDNProjL1', 'ConvBPDNProjL1'):
        P = c.mod('sporco.prox').proj_l1(G1, GAM, axis=0 if cls == 'BPDNProjL1' else tuple(range(dimN)) + (dimN, dimN + 2))
        e = P - G1
        c.eq('Cnstr', st.Cnstr, np.sqrt(np.sum(e * e)))
    c.true('Iter', st.Iter == 0)
    c.eq('Rho', st.Rho, 2.0)
    c.eq('residual fields', np.array([st.PrimalRsdl, st.DualRsdl, st.EpsPrimal, st.EpsDual]),
         np.array([0.5, 0.25, 0.125, 0.0625]))


# ------------------------------------------------------------ inhibition

@reg.case('inhib', [dict(l='1d', aux=0), dict(l='1d', aux=1), dict(l='1dk', aux=0)])
def inhib(c, l, aux):
    """The adaptive weights enter the statistics as weighted l1 norms; the
    weights themselves are decided by P07."""
    np = c.np
    f = Fac(c, 'ConvBPDNInhib', l, opts=dict(rho=2.0, RelaxParam=1.5, fEvalX=not aux, gEvalY=bool(aux), L1Weight=1.0))
    b = f.b
    X1 = c.real('X1', f.xi)
    Y1 = c.real('Y1', f.xi)
    F = c.mod('sporco.fft')
    V = b.var_y()
    ys = b.ystep

    def ystep():
        # the weights are computed from the coefficient map
        b.X = X1.copy()
        b.Xf = F.rfftn(b.X, None, tuple(range(f.dimN)))
        b.AX = X1.copy()
        ys()
        b.Y = Y1.copy()
    b.ystep = ystep
    b.compute_residuals = lambda: (0.5, 0.25, 0.125, 0.0625)
    b.solve()
    st = b.itstat[0]
    Z = Y1 if aux else X1
    R = f.Dx(Z) - f.Si
    d = 0.5 * np.sum(R * R)
    c.eq('DFid', st.DFid, d)
    c.eq('RegL1', st.RegL1, l1(np, Z))
    c.eq('ObjFun', st.ObjFun, st.DFid + LM * st.RegL1 + MU * st.RegLat + 0.25 * st.RegSelf)


# -------------------------------------------------------- reconstruction

R = [dict(cls=_c, l=_l) for _c in ONE + TWO + TVS for _l in ('1d', '1dodd', '1dk', '1dc', '1dcd', '2d', '2dck', '2dcd3')]
R += [dict(cls=_c, l=_l, B=_B) for _c in PDS + PD2 for _l, _B in (('1d', 'sq'), ('1dk', 'tall'), ('2dodd', 'row'))]
R += [dict(cls='ConvBPDNInhib', l='1dk')]
R += [dict(cls=_c, l='1dcd', nd=1) for _c in ('ConvBPDN', 'ConvBPDNMaskDcpl', 'ConvBPDNScalarTV')]


@reg.case('reconstruct', R)
def reconstruct(c, cls, l, nd=0, **kw):
    np = c.np
    f = Fac(c, cls, l, opts=dict(rho=2.0), newd=nd, dual=False, **kw)
    Z = c.real('Z', f.xi)
    c.keep(Z)
    Sr = f.b.reconstruct(Z)
    c.unchanged()
    c.eq('given coefficients', Sr, f.Dx(Z)[..., 0])
    if cls == 'ConvBPDNInhib' or cls == 'ConvBPDNProjL1':
        return
    Y = run(c, f, 1)
    X = f.b.var_x()
    if cls in TWO + TVS + PD2:
        want = f.Dx(X)
    else:
        want = f.Dx(Y)
    c.eq('current coefficients', f.b.reconstruct(), want[..., 0])


# ------------------------------------------------- additive mask simulation

@reg.case('addmask', [dict(l=_l, cls=_c) for _c in ('ConvBPDN', 'ConvElasticNet', 'ConvBPDNGradReg') for _l in ('1d', '1dk', '1dcd')])
def addmask(c, l, cls):
    """The impulse filter coefficients are excluded from the l1 term."""
    np = c.np
    B = c.mod('sporco.admm.cbpdn')
    from checks.p06 import lay, LAY, base_opt
    N, n, C, Cd, K, M = LAY[l]
    dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
    D, S = c.const(csc.vals(dsh, 5)), c.real('S', ssh)
    W = c.const((csc.vals(ssh, 8) > 0).astype(float))
    xe = xi[:-1] + (M + Cd,)
    opt = getattr(B, cls).Options(base_opt(c, xe, RelaxParam=1.0, rho=2.0, gEvalY=True))
    b = B.AddMaskSim(getattr(B, cls), D, S, W, *((LM,) if cls == 'ConvBPDN' else (LM, MU)), opt=opt, dimN=1)
    Y1 = c.real('Y1', xe)
    b.cbpdn.ystep = lambda: setattr(b.cbpdn, 'Y', Y1.copy())
    b.cbpdn.compute_residuals = lambda: (0.5, 0.25, 0.125, 0.0625)
    b.solve()
    st = b.getitstat()
    c.eq('RegL1', st.RegL1[0], l1(np, Y1[..., :M]))
    Z = c.real('Z', xi)
    c.eq('reconstruct', b.reconstruct(Z), csc.Dmul(np, D.reshape(di), Z, 1)[..., 0])


# -------------------------------------------------------- complex signals

CXO = [dict(cls=_c, l=_l, aux=_a, w21=_w) for _c in ('ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet') for _l in ('1d', '1dodd', '1dk', '1dc', '2dck')
       for _a in (0, 1) for _w in (0, 1) if (_a or _l != '1dodd') and (not _w or _c == 'ConvBPDNJoint' and _l in ('1dc', '2dck'))]


@reg.case('complex', CXO)
def complex_signals(c, cls, l, aux, w21=0):
    """the recorded functional values for complex signals"""
    np = c.np
    N, n, C, Cd, K, M = LAY[l]
    dimN = len(N)
    dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
    D = c.const(csc.vals(dsh, 5) + 1j * csc.vals(dsh, 11), 'complex128')
    S = c.cplx('S', ssh)
    U0 = c.cplx('U', xi)
    o = dict(Verbose=False, MaxMainIter=1, RelStopTol=0.0, rho=2.0, RelaxParam=1.5, AutoRho={'Enabled': False},
             Y0=c.cplx('Y', xi), U0=U0, fEvalX=not aux, gEvalY=bool(aux))
    w = 1.0
    if w21:
        w = o['L21Weight'] = csc.vals((M,), 6) ** 2
    C_ = getattr(c.mod('sporco.admm.cbpdn'), cls)
    args = (LM,) if cls == 'ConvBPDN' else (LM, MU)
    b = C_(D, S, *args, opt=C_.Options(o), dimK=dimk(C, Cd, K), dimN=dimN)
    Y1 = c.cplx('Yn', xi)

    def ystep():
        b.Y = Y1.copy()
    b.ystep = ystep
    b.compute_residuals = lambda: (0.5, 0.25, 0.125, 0.0625)
    b.solve()
    F = Y1 if aux else b.var_x()
    R = csc.Dmul(np, D.reshape(di), F, dimN) - S.reshape(si)
    sq = lambda x: x.real * x.real + x.imag * x.imag
    st = b.itstat[0]
    want = {'DFid': 0.5 * np.sum(sq(R)), 'RegL1': np.sum(np.abs(F))}
    obj = want['DFid'] + LM * want['RegL1']
    if cls == 'ConvBPDNJoint':
        want['RegL21'] = np.sum(w * np.sqrt(np.sum(sq(F), axis=dimN, keepdims=True)))
        obj = obj + MU * want['RegL21']
    if cls == 'ConvElasticNet':
        want['RegL2'] = 0.5 * np.sum(sq(F))
        obj = obj + MU * want['RegL2']
    for k in want:
        c.eq(k, getattr(st, k), want[k])
    c.eq('ObjFun', st.ObjFun, obj)
    Z = c.cplx('Z', xi)
    c.eq('reconstruct', b.reconstruct(Z), csc.Dmul(np, D.reshape(di), Z, dimN)[..., 0])
    c.eq('reconstruct, current', b.reconstruct(), csc.Dmul(np, D.reshape(di), Y1, dimN)[..., 0])
