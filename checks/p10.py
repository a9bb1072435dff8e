"""P10: constraint operators of the ADMM sparse coding solvers are the
documented ones, their adjoints are adjoint, and the reported residuals and
tolerances are those of the documented constraint."""
from sx.run import Registry
from sx import csc, spec
from checks.fac import Fac, STD, ONE, TWO, TVS, PDS, PD2
reg = Registry()
MODULES = ['sporco.admm.bpdn', 'sporco.admm.cbpdn', 'sporco.admm.cbpdntv', 'sporco.admm.pdcsc', 'sporco.admm.admm']
BOUNDS = ('arbitrary (symbolic) coefficient, auxiliary and dual arrays; signals of at most 12 samples, '
          '3 channels, 2 signals, 3 filters; fixed rational dictionaries; residuals after one iteration '
          'from an arbitrary state')

A = [dict(cls='MinL1InL2Ball', l=_l) for _l in ('1d', '1dodd')]
A += [dict(cls=_c, l=_l) for _c in TWO + TVS for _l in ('1d', '1dodd', '1dk', '1dc', '1dcd', '1dcdk', '2d', '2dck', '2dcd3', '2dcds')]
A += [dict(cls=_c, l=_l, tw=1) for _c in TVS for _l in ('1dk', '1dcd', '2d')]
A += [dict(cls=_c, l='1dcd', nd=1) for _c in TWO + TVS]
A += [dict(cls=_c, l=_l, B=_B) for _c in PD2 for _l, _B in (('1d', 'sq'), ('1dk', 'tall'), ('2dodd', 'row'), ('1dk', 'sq'))]


@reg.case('adjoint', A)
def adjoint(c, cls, l, nd=0, **kw):
    np = c.np
    f = Fac(c, cls, l, opts=dict(rho=2.0), newd=nd, state=False, **kw)
    b = f.b
    X, Y = c.real('X', f.xi), c.real('Y', f.ysh)
    c.keep(X, Y)
    AX = b.cnst_A(X)
    c.eq('operator', AX, f.A(X))
    ATY = b.cnst_AT(Y)
    c.eq('shape', ATY * 0.0, np.zeros(f.xi))
    c.eq('adjoint', np.sum(ATY * X), np.sum(Y * f.A(X)))
    c.eq('B', b.cnst_B(Y), -Y)
    c.unchanged()
    if cls in TWO + PD2:
        c.eq('residual', b.rsdl_r(AX, Y), f.A(X) - Y - f.cvec())
        c.eq('c', np.zeros(f.si) + b.cnst_c0(), f.Si)
        c.eq('block', b.block_cat(*b.block_sep(Y)), Y)
        c.eq('block0', b.block_sep0(Y), f.sep(Y)[0])
        c.eq('block1', b.block_sep1(Y), f.sep(Y)[1])
    else:
        c.eq('residual', b.rsdl_r(AX, Y), f.A(X) - Y)


R = []
for _c in STD:
    R += [dict(cls=_c, l=_l, std=s, rlx=r) for _l, s, r in (('1dk', 1, 1.0), ('1dodd', 0, 1.0), ('1dodd', 0, 1.5))]
for _c in ONE:
    R += [dict(cls=_c, l=_l, std=s, rlx=r) for _l, s, r in (('1ds', 1, 1.0), ('1d', 0, 1.0), ('1ds', 0, 1.5))]
for _c in TWO + TVS:
    R += [dict(cls=_c, l=_l, std=s, rlx=r) for _l, s, r in (('1ds', 1, 1.0), ('1dk', 1, 1.0), ('1dcd', 1, 1.0), ('1d', 0, 1.0), ('1dc', 1, 1.0),
                                                            ('1ds', 0, 1.5), ('2dcds', 1, 1.5))]
for _c in PDS + PD2:
    R += [dict(cls=_c, l=_l, std=s, rlx=r, B='sq') for _l, s, r in (('1ds', 1, 1.0), ('1ds', 0, 1.0), ('1ds', 0, 1.5))]
for _c in PD2:
    R += [dict(cls=_c, l='1ds', std=1, rlx=1.0, B=_B) for _B in ('tall', 'row')]


@reg.case('residuals', R, limit=120)
def residuals(c, cls, l, std, rlx, **kw):
    """Residual vectors (the way they enter the stopping test is decided by
    P08; normalisation terms are checked separately below)."""
    np = c.np
    at, rt, rho = 0.25, 0.5, 2.0
    f = Fac(c, cls, l, opts=dict(rho=rho, RelaxParam=rlx, AbsStopTol=at, RelStopTol=rt,
                                 AutoRho={'Enabled': False, 'StdResiduals': bool(std)}), **kw)
    b = f.b
    Y0, U0 = f.opt['Y0'], f.opt['U0']
    Y1 = c.real('Y1', f.ysh)
    b.ystep = lambda: setattr(b, 'Y', Y1.copy())
    b.rsdl_rn = lambda AX, Y: 2.0
    b.rsdl_sn = lambda U: 0.5
    got = []
    orig = b.compute_residuals

    def comp():
        got.append(orig())
        return 1.0, 1.0, 0.5, 0.5
    b.compute_residuals = comp
    # only the residuals are of interest here: no functional values
    b.eval_objfn = lambda: (0.0,) * len(type(b).itstat_fields_objfn)
    b.solve()
    X, U = b.var_x(), b.var_u()
    r, s, ep, ed = got[0]
    AX, cv = f.A(X), f.cvec()
    pri = AX - Y1 - cv

    def nrm(v):
        return np.sqrt(np.sum(v * v))
    AT = (lambda v: v) if cls in ONE + PDS or (cls in STD and cls != 'MinL1InL2Ball') else None
    if AT is None:
        # adjoint decided above
        AT = b.cnst_AT
    dua = rho * AT(Y0 - Y1)
    c.eq('u', U, U0 + (rlx * AX + (1 - rlx) * (Y0 + cv)) - Y1 - cv)
    # for problems without an f term the solvers use rho A^T u, which is the
    # same vector when there is no relaxation; ConvProdDictL1L1Grd uses it
    # as a heuristic also with an f term (noted as such in its source)
    if cls in PD2:
        dua = None
    elif (cls in TWO[:2] or cls == 'MinL1InL2Ball') and rlx != 1.0:
        dua = rho * AT(U)
    nc = nx = 1
    for q in f.ysh:
        nc *= q
    for q in f.xi:
        nx *= q
    rn, sn = 2.0, 0.5
    if not std:
        c.eq('primal residual', r * rn, nrm(pri))
        c.eq('primal tolerance', (ep - rt) * rn, np.sqrt(float(nc)) * at)
        if dua is not None:
            c.eq('dual residual', s * sn, nrm(dua))
        c.eq('dual tolerance', (ed - rt) * sn, np.sqrt(float(nx)) * at)
    else:
        c.eq('primal residual', r, nrm(pri))
        c.eq('primal tolerance', ep, np.sqrt(float(nc)) * at + rt * rn)
        if dua is not None:
            c.eq('dual residual', s, nrm(dua))
        c.eq('dual tolerance', ed, np.sqrt(float(nx)) * at + rt * sn)


NR = [dict(cls=_c, l='1dk') for _c in STD + ONE + TWO + TVS] + [dict(cls=_c, l='1dcd') for _c in TWO + TVS] + \
    [dict(cls=_c, l='1ds', B='sq') for _c in PDS + PD2]


@reg.case('normalisation', NR, limit=90)
def normalisation(c, cls, l, **kw):
    np = c.np
    rho = 2.0
    f = Fac(c, cls, l, opts=dict(rho=rho), state=False, S=3, **kw)
    b = f.b
    # a few arbitrary entries (anywhere), the others zero
    def sparse(nm, pos):
        a = np.zeros(f.ysh)
        q = np.ravel(a) * 1.0
        n = q.shape[0]
        v = c.real(nm, (len(pos),))
        q = np.array([v[pos.index(i)] if i in pos else 0.0 for i in range(n)])
        return q.reshape(f.ysh)
    n = 1
    for q in f.ysh:
        n *= q
    AX, Y, U = sparse('A', [0, n - 1]), sparse('Y', [n // 2]), sparse('U', [0, n - 1])

    def nrm(v):
        return np.sqrt(np.sum(v * v))
    one, two, thr = nrm(AX), nrm(Y), nrm(f.cvec())
    rn = one if c.branch(one >= two) else two
    rn = rn if c.branch(rn >= thr) else thr
    c.eq('primal', b.rsdl_rn(AX, Y), rn)
    if cls in TWO[:2] + PD2 or cls == 'MinL1InL2Ball':
        c.eq('dual', b.rsdl_sn(U), rho * nrm(U))
    elif cls in TWO + TVS:
        c.eq('dual', b.rsdl_sn(U), rho * nrm(b.cnst_AT(U)))
    else:
        c.eq('dual', b.rsdl_sn(U), rho * nrm(U))
