"""P16: dictionary learning alternates its coding and update steps as
documented, hands the right variables over, and reports the documented
functional; online learning takes the documented gradient step."""
from contextlib import contextmanager
from sx.run import Registry
from sx import csc
from checks.p06 import LAY as _LAY, lay, dimk
from checks.p13 import dlay, ddimk
from checks.p15 import unitD
reg = Registry()
MODULES = ['sporco.dictlrn.dictlrn', 'sporco.dictlrn.cbpdndl', 'sporco.dictlrn.cbpdndlmd', 'sporco.dictlrn.bpdndl',
           'sporco.dictlrn.wbpdndl', 'sporco.dictlrn.onlinecdl', 'sporco.dictlrn.common']
BOUNDS = ('one to three iterations; the component solvers, decided by P06 and P12-P14, either return arbitrary (symbolic) '
          'values or run from their initial state on a symbolic signal; signals of at most 8 samples, 2 channels, '
          '2 signals, 3 filters; fixed rational dictionaries and parameters')
LAY = dict(_LAY)
LAY['1dck'] = ((2,), (2,), 2, 1, 2, 2)
LAY['1dk'] = ((3,), (2,), 1, 1, 2, 2)
LAY['1dcdk'] = ((2,), (2,), 2, 2, 2, 2)
LAY['2dk'] = ((2, 2), (2, 1), 1, 1, 2, 1)
LAY['2dc'] = ((2, 2), (1, 2), 2, 1, 1, 2)
LM = 0.75


# ----------------------------------------------------------- generic driver

class Step:
    """user defined step whose results are arbitrary"""

    def __init__(self, c, tag, log, stats=True):
        import collections
        self.c, self.tag, self.log, self.n = c, tag, log, 0
        self.IterationStats = collections.namedtuple('IterationStats', ['Iter', 'ObjFun', 'DFid', 'PrimalRsdl', 'DualRsdl', 'Rho', 'Oth'])
        self.itstat = []
        self.v = c.real(tag + '_init', (2,))
        self.stats = stats

    def solve(self):
        self.n += 1
        self.v = self.c.real('%s_%d' % (self.tag, self.n), (2,))
        self.log.append((self.tag + ' solve', None))
        if self.stats:
            self.itstat.append(self.IterationStats(*[self.c.real('%s_st%d_%d' % (self.tag, self.n, k)) for k in range(7)]))
        return self.v

    def get(self):
        return self.v

    getdict = getcoef = get

    def setdict(self, D):
        self.log.append((self.tag + ' setdict', D))

    def setcoef(self, X):
        self.log.append((self.tag + ' setcoef', X))


F = [dict(n=1), dict(n=3), dict(n=3, stop=2), dict(n=2, again=1), dict(n=3, stop=1, again=1), dict(n=2, stats=0),
     dict(n=2, ev=1), dict(n=1, ev=1, dflt=1), dict(n=2, dflt=1), dict(n=1, sub=1), dict(n=2, verb=1)]


@reg.case('driver', F)
def driver(c, n, stop=0, again=0, stats=1, ev=0, dflt=0, sub=0, verb=0):
    DL = c.mod('sporco.dictlrn.dictlrn')
    log = []
    x, d = Step(c, 'x', log, stats), Step(c, 'd', log, stats)
    calls = []

    def cb(o):
        calls.append((o.j, len(o.itstat)))
        return len(calls) == stop
    o = DL.DictLearn.Options({'MaxMainIter': n, 'Callback': cb, 'Verbose': bool(verb)})
    isc = None
    if not dflt:
        # field mapping with names that also exist in the other step
        isc = DL.IterStatsConfig(isfld=['Iter', 'A', 'B', 'C', 'E', 'None_', 'Time'], isxmap={'A': 'ObjFun', 'B': 'Rho'},
                                 isdmap={'C': 'ObjFun'}, evlmap={'E': 'val'} if ev else {}, hdrtxt=['Itn', 'a', 'b'],
                                 hdrmap={'Itn': 'Iter', 'a': 'C', 'b': 'A'})
    cls = DL.DictLearn
    vals = []
    if ev or sub:
        class Mine(DL.DictLearn):
            def evaluate(self):
                if not ev:
                    return None
                vals.append(c.real('ev_%d' % len(vals)))
                log.append(('eval', None))
                return {'E': vals[-1]}

            def post_xstep(self):
                self.dstep.setcoef(self.xstep.getcoef() * 2.0)
        cls = Mine
    b = cls(x, d, o, isc)
    if verb:
        import io
        import contextlib
        # the display of symbolic values is not part of the property
        b.isc.printiterstats = lambda s: None
        with contextlib.redirect_stdout(io.StringIO()):
            R = b.solve()
    else:
        R = b.solve()
    m = stop if stop else n
    if again:
        stop_ = len(calls)
        R = b.solve()
        m += n if not stop else n
        c.eq('callback calls', len(calls), m)
    c.eq('steps taken', x.n, m)
    c.eq('steps taken (d)', d.n, m)
    c.eq('dictionary', R, d.v)
    c.eq('getdict', b.getdict(), d.v)
    c.eq('getcoef', b.getcoef(), x.v)
    c.eq('next iteration', b.j, m)
    per = 4 + (1 if ev else 0)
    c.eq('calls', len(log), per * m)
    scale = 2.0 if (ev or sub) else 1.0
    for i in range(m):
        seq = log[per * i:per * (i + 1)]
        c.true('order %d' % i, [s for s, _ in seq] == ['x solve', 'd setcoef', 'd solve', 'x setdict'] + (['eval'] if ev else []))
        c.eq('coefficients handed over %d' % i, seq[1][1], scale * c.real('x_%d' % (i + 1), (2,)))
        c.eq('dictionary handed over %d' % i, seq[3][1], c.real('d_%d' % (i + 1), (2,)))
    c.eq('records', len(b.itstat), m)
    st = b.getitstat()
    for i in range(m):
        c.eq('callback after record', calls[i][1], i + 1)
        c.eq('callback iteration', calls[i][0], i)
        sx = x.itstat[i] if stats else None
        sd = d.itstat[i] if stats else None
        g = lambda s, k: getattr(s, k) if stats else 0.0
        c.eq('Iter', st.Iter[i], i)
        if dflt:
            for nm, s, k in (('ObjFunX', sx, 'ObjFun'), ('XPrRsdl', sx, 'PrimalRsdl'), ('XDlRsdl', sx, 'DualRsdl'), ('XRho', sx, 'Rho'),
                             ('ObjFunD', sd, 'DFid'), ('DPrRsdl', sd, 'PrimalRsdl'), ('DDlRsdl', sd, 'DualRsdl'), ('DRho', sd, 'Rho')):
                c.eq(nm, getattr(b.itstat[i], nm), g(s, k))
        else:
            c.eq('A', st.A[i], g(sx, 'ObjFun'))
            c.eq('B', st.B[i], g(sx, 'Rho'))
            c.eq('C', st.C[i], g(sd, 'ObjFun'))
            if ev:
                c.eq('E', st.E[i], vals[i])


# -------------------------------------------------------- concrete learners

class Learner:
    """A dictionary learning object and its reference operators."""

    def __init__(self, c, l, xm, dm, msk=None, acc=0, X=None, G=None, iters=1, fixS=0, opt=None, defopt=0, scale=1, dsz=0, zm=0, cx=0):
        self.inp = c.cplx if cx else c.real
        self.c, self.xm, self.dm, self.msk = c, xm, dm, msk
        np = self.np = c.np
        self.weighted = self.std = False
        self.Wext = None
        self.w2 = 1.0
        if xm in ('bpdn', 'wbpdn'):
            self.std = True
            Nc, M, K = {'a': (2, 3, 2), 'b': (3, 2, 2), 'c': (2, 2, 1)}[l]
            self.xi, self.di, self.si = (M, K), (Nc, M), (Nc, K)
            self.D0 = c.const(unitD(c, (Nc,), 1, M).reshape(Nc, M) * scale)
            self.S = c.const(csc.vals((Nc, K), 3)) if fixS else c.real('S', (Nc, K))
            self.Si = self.S
            self.prod = lambda D, Z: D.dot(Z)
            self.crop = lambda D: D
            o = {'MaxMainIter': iters, 'AccurateDFid': bool(acc), 'BPDN': dict(X or {}), 'CMOD': dict(G or {})}
            args, kw = [self.D0, self.S, LM], {}
            if xm == 'bpdn':
                cl = c.mod('sporco.dictlrn.bpdndl').BPDNDictLearn
            else:
                cl = c.mod('sporco.dictlrn.wbpdndl').WeightedBPDNDictLearn
                if msk:
                    W = c.real('W', {'full': (Nc, K), 'row': (Nc, 1)}[msk], nonneg=True, hi=2)
                    self.Wext, self.w2 = W, W
                    kw['W'] = W
        else:
            N, n, C, Cd, K, M = LAY[l]
            self.N, self.n, self.dimN = N, n, len(N)
            Nl, nl, C, Cd, K, M, ssh, self.dsz, self.si, self.xi, self.di = dlay_(l)
            dimN = len(N)
            D0 = unitD(c, n, Cd, M).reshape(self.dsz) * scale
            if dsz:
                # filters of different sizes
                self.dsz = ((1,) * dimN + ((Cd,) if Cd > 1 else ()) + (1,), n + ((Cd,) if Cd > 1 else ()) + (M - 1,))
                sl = tuple(slice(1, None) for _ in n)
                D0 = D0.copy()
                D0[sl[:1] + (slice(None),) * (D0.ndim - 2) + (0,)] = 0.0
                D0[(0,) * dimN + (Ellipsis, 0)] = scale * (1.0 if Cd == 1 else csc.vals((Cd,), 1) * 0 + [0.6, 0.8])
            # (complex signals: rotated unit norm filters)
            self.D0 = c.const(D0 * 1j, 'complex128') if cx else c.const(D0)
            self.S = c.const(csc.vals(ssh, 3)) if fixS else self.inp('S', ssh)
            self.Si = self.S.reshape(self.si)
            self.prod = lambda D, Z: csc.Dmul(np, D, Z, dimN)
            self.kw = kw = dict(dimK=ddimk(C, Cd, K), dimN=dimN)
            o = {'MaxMainIter': iters, 'AccurateDFid': bool(acc), 'CBPDN': dict(X or {}), 'CCMOD': dict(G or {})}
            if dsz:
                o['DictSize'] = self.dsz
            kw = dict(kw, xmethod=xm, dmethod=dm)
            args = [self.D0, self.S, LM]
            if msk:
                W = c.real('W', {'ext': ssh, 'N': N, 'full': self.si}[msk], nonneg=True, hi=2)
                self.Wext = W
                Wi = W.reshape(N + (1, 1, 1)) if msk == 'N' else W.reshape(self.si)
                self.w2 = Wi ** 2
                args.append(W)
                cl = c.mod('sporco.dictlrn.cbpdndlmd').ConvBPDNMaskDictLearn
            else:
                cl = c.mod('sporco.dictlrn.cbpdndl').ConvBPDNDictLearn
        self.zm = zm
        if defopt:
            self.opt = None
            self.b = cl(*args, **kw)
        else:
            if zm:
                o['CMOD' if self.std else 'CCMOD']['ZeroMean'] = True
            o.update(opt or {})
            self.opt = cl.Options(o) if self.std else cl.Options(o, xmethod=xm, dmethod=dm)
            self.b = cl(*args, opt=self.opt, **kw)
        self.wl = 1.0
        self.nx = self.nd = 0

    # states of the component solvers
    def setx(self, Z):
        """the coding step returns Z"""
        b, np = self.b.xstep, self.np
        if self.xm in ('pgm', 'wbpdn'):
            b.X = Z
            return
        b.X = self.inp('Xp', self.xi)
        if self.msk:
            b.Y = b.block_cat(b.block_sep0(b.Y) * 0.0, Z)
        else:
            b.Y = Z

    def setd(self, D):
        """the update step returns D (zero padded)"""
        b, np = self.b.dstep, self.np
        if self.dm == 'pgm' or self.xm == 'wbpdn':
            b.X = D
            return
        b.X = self.inp('Dp', b.X.shape if getattr(b, 'X', None) is not None else D.shape)
        if self.msk and self.dm != 'cns':
            b.Y = b.block_cat(b.block_sep0(b.Y) * 0.0, D)
        else:
            b.Y = D

    def stats(self, obj, tag):
        fl = type(obj).IterationStats._fields if hasattr(type(obj), 'IterationStats') else obj.IterationStats._fields
        return obj.IterationStats(*[self.c.real('%s_%s' % (tag, f)) for f in fl])

    def havoc(self, x=True, d=True, seq=None):
        """replace the solve method of the coding/update step by one that
        returns arbitrary (or given) values"""
        c = self.c
        if x:
            def fx():
                self.nx += 1
                self.setx(seq[0](self.nx) if seq and seq[0] else self.inp('Z%d' % self.nx, self.xi))
                self.b.xstep.itstat.append(self.stats(self.b.xstep, 'xs%d' % self.nx))
            self.b.xstep.solve = fx
        if d:
            def fd():
                self.nd += 1
                self.setd(self.pad(seq[1](self.nd) if seq and seq[1] else self.inp('D%d' % self.nd, self.di)))
                self.b.dstep.itstat.append(self.stats(self.b.dstep, 'ds%d' % self.nd))
            self.b.dstep.solve = fd

    def pad(self, D):
        """filters (internal layout) zero padded to the signal size"""
        if self.std:
            return D
        np = self.np
        r = np.zeros(self.N + tuple(D.shape[self.dimN:]), dtype=D.dtype)
        r[tuple(slice(0, k) for k in self.n)] = D
        return r

    def Pcn(self, D):
        """projection onto the constraint set (decided by P05, P01)"""
        c = self.c
        if self.std:
            if self.xm == 'bpdn':
                return c.mod('sporco.admm.cmod').getPcn(bool(self.zm))(D)
            return c.mod('sporco.pgm.cmod').getPcn(bool(self.zm), False)(D)
        dsz = self.dsz
        cr = c.mod('sporco.cnvrep')
        return cr.getPcn(dsz, self.N, dimN=self.dimN, dimC=1 if self.di[self.dimN] > 1 else 0, crp=True, zm=bool(self.zm))(
            self.pad(D.reshape(self.di)))


def dlay_(l):
    import checks.p13 as p13
    N, n, C, Cd, K, M = LAY[l]
    ssh = N + ((C,) if C > 1 else ()) + ((K,) if K > 1 else ())
    dsz = n + ((Cd,) if Cd > 1 else ()) + (M,)
    Cx = C if Cd == 1 else 1
    return N, n, C, Cd, K, M, ssh, dsz, N + (C, K, 1), N + (Cx, K, M), n + (Cd, 1, M)


CX = {'admm': {'rho': 2.0, 'RelaxParam': 1.75, 'AutoRho': {'Enabled': False, 'StdResiduals': True}, 'RelStopTol': 0.0}, 'pgm': {'L': 2.0, 'RelStopTol': -1.0},
      'bpdn': {'rho': 2.0, 'RelaxParam': 1.75, 'AutoRho': {'Enabled': False, 'StdResiduals': True}, 'RelStopTol': 0.0}, 'wbpdn': {'L': 2.0, 'RelStopTol': -1.0}}
CG = {'pgm': {'L': 4.0, 'RelStopTol': -1.0}, 'admm': {'rho': 4.0, 'RelaxParam': 1.5, 'AutoRho': {'Enabled': False, 'StdResiduals': True}, 'RelStopTol': 0.0}}


def xopt(xm, **kw):
    o = dict(CX[xm])
    o.update(kw)
    return o


def gopt(dm, **kw):
    o = dict(CG['pgm' if dm == 'pgm' else 'admm'])
    o.update(kw)
    return o


PAIRS = []
for _xm in ('admm', 'pgm'):
    for _dm in ('pgm', 'ism', 'cg', 'cns'):
        PAIRS.append((_xm, _dm))
H = []
for _xm, _dm in PAIRS:
    for _msk in (None, 'ext'):
        for _l in ('1dk', '1dcdk', '1dck'):
            for _acc in (0, 1):
                H.append(dict(l=_l, xm=_xm, dm=_dm, msk=_msk, acc=_acc))
H += [dict(l=_l, xm='admm', dm='pgm', msk=_m, acc=1) for _l in ('1d', '1dodd', '2dk', '2dc') for _m in (None, 'N')]
H += [dict(l=_l, xm='pgm', dm='cns', msk=_m, acc=1) for _l in ('1d', '1dodd', '2dk', '2dc') for _m in (None, 'N')]
H += [dict(l='1dk', xm=_x, dm='pgm', msk=_m, acc=1, w=1) for _x in ('admm', 'pgm') for _m in (None, 'full')]
# (complex signals)
H += [dict(l=_l, xm='admm', dm=_d, acc=_a, cx=1) for _l in ('1d', '1dodd', '1dk') for _d in ('ism', 'cg', 'cns') for _a in (0, 1)]
H += [dict(l='2dc', xm='admm', dm='cns', acc=1, cx=1)]
H += [dict(l=_l, xm='bpdn', dm='admm', acc=_a) for _l in ('a', 'b', 'c') for _a in (0, 1)]
H += [dict(l='a', xm=_x, dm=_d, acc=1, w=1) for _x, _d in (('bpdn', 'admm'), ('wbpdn', 'pgm'))]
H += [dict(l=_l, xm='wbpdn', dm='pgm', acc=_a, msk=_m) for _l in ('a', 'b') for _a in (0, 1) for _m in (None, 'full', 'row')]


def stat_fields(f):
    """documented statistics fields -> (step, field)"""
    st = f.b.itstat[0]._fields
    out = {'Cnstr': ('d', 'Cnstr')}
    if not f.acc:
        out.update(ObjFun=('x', 'ObjFun'), DFid=('x', 'DFid'), RegL1=('x', 'RegL1'))
    if f.xm in ('admm', 'bpdn'):
        out.update(XPrRsdl=('x', 'PrimalRsdl'), XDlRsdl=('x', 'DualRsdl'), XRho=('x', 'Rho'))
    elif f.xm == 'wbpdn':
        out.update(XRsdl=('x', 'Rsdl'), XL=('x', 'L'))
    else:
        out.update(X_L=('x', 'L'), X_Rsdl=('x', 'Rsdl'))
    if f.xm == 'wbpdn':
        out.update(DRsdl=('d', 'Rsdl'), DL=('d', 'L'))
    elif f.dm == 'pgm':
        out.update(D_L=('d', 'L'), D_Rsdl=('d', 'Rsdl'))
    else:
        out.update(DPrRsdl=('d', 'PrimalRsdl'), DDlRsdl=('d', 'DualRsdl'), DRho=('d', 'Rho'))
    for k in list(out):
        if k not in st:
            raise AssertionError('no statistics field %s' % k)
    if 'X_F_Btrack' in st:
        out.update(X_F_Btrack=('x', 'F_Btrack'), X_Q_Btrack=('x', 'Q_Btrack'), X_ItBt=('x', 'IterBTrack'))
    if 'D_F_Btrack' in st:
        out.update(D_F_Btrack=('d', 'F_Btrack'), D_Q_Btrack=('d', 'Q_Btrack'), D_ItBt=('d', 'IterBTrack'))
    return out


@reg.case('handover', H)
def handover(c, l, xm, dm, msk=None, acc=0, w=0, cx=0):
    """arbitrary results of both steps: what is handed over, evaluated and
    returned"""
    np = c.np
    X = xopt(xm)
    if w:
        shp = {'a': (3, 2)}.get(l) or dlay_(l)[9]
        X['L1Weight'] = csc.vals(shp, 9) ** 2
    f = Learner(c, l, xm, dm, msk, acc, X=X, G=gopt(dm), iters=2, cx=cx)
    f.acc = acc
    c.keep(f.S)
    wl = X['L1Weight'] if w else 1.0
    b = f.b
    xs, ds = b.xstep, b.dstep
    T, Q = f.inp('T', f.xi), f.inp('Q', f.di)
    given = {'x': [], 'd': []}

    def record(obj, nm, k):
        """for a solver without synthesis method the argument is recorded;
        what becomes of it is decided by the phase cases"""
        g = getattr(obj, nm)

        def rec(A):
            given[k].append(A)
            return g(A)
        setattr(obj, nm, rec)
    xr, dr = hasattr(xs, 'reconstruct'), hasattr(ds, 'reconstruct')
    if not xr:
        record(xs, 'setdict', 'x')
    else:
        c.eq('initial dictionary of the coding step', xs.reconstruct(T).reshape(f.si), f.prod(f.D0.reshape(f.di), T))
    if not dr:
        record(ds, 'setcoef', 'd')
    c.eq('initial dictionary', ds.getdict().copy().reshape(f.di), f.D0.reshape(f.di))
    seen = []
    f.havoc()
    fx, fd = xs.solve, ds.solve

    def sx_():
        if f.nx:
            D = f.inp('D%d' % f.nx, f.di)
            seen.append(('coding step dictionary',) + ((xs.reconstruct(T).reshape(f.si), f.prod(D, T)) if xr else
                                                       (given['x'][-1].reshape(f.di), D)))
        fx()

    def sd_():
        Z = f.inp('Z%d' % f.nx, f.xi)
        seen.append(('update step coefficients',) + ((ds.reconstruct(f.pad(Q)).reshape(f.si), f.prod(Q, Z)) if dr else
                                                     (given['d'][-1], Z)))
        fd()
    xs.solve, ds.solve = sx_, sd_
    R = b.solve()
    for k, (nm, u, v) in enumerate(seen):
        c.eq('%s (%d)' % (nm, k), u, v)
    c.eq('hand-overs', len(seen), 3)
    D2, Z2 = f.inp('D2', f.di), f.inp('Z2', f.xi)
    c.eq('returned dictionary', R.reshape(f.di), D2)
    c.eq('dictionary', b.getdict().reshape(f.di), D2)
    c.eq('coefficients', b.getcoef(), Z2)
    if not f.std:
        c.eq('dictionary, not cropped', b.getdict(crop=False), f.pad(D2))
        c.eq('reconstruction', b.reconstruct().reshape(f.si), f.prod(D2, Z2))
        c.eq('reconstruction of arguments', b.reconstruct(Q, T).reshape(f.si), f.prod(Q, T))
        c.eq('reconstruction of coefficients', b.reconstruct(X=T).reshape(f.si), f.prod(D2, T))
    for i in (0, 1):
        st = b.itstat[i]
        c.eq('Iter', st.Iter, i)
        for k, (s, nm) in stat_fields(f).items():
            c.eq(k, getattr(st, k), getattr((xs if s == 'x' else ds).itstat[i], nm))
        if acc:
            D, Z = f.inp('D%d' % (i + 1), f.di), f.inp('Z%d' % (i + 1), f.xi)
            r = f.prod(D, Z) - f.Si
            dfd = np.sum(f.w2 * np.abs(r) ** 2) / 2.0
            l1 = np.sum(np.abs(wl * Z))
            c.eq('DFid', st.DFid, dfd)
            c.eq('RegL1', st.RegL1, l1)
            c.eq('ObjFun', st.ObjFun, dfd + LM * l1)
    c.unchanged()


# ------------------------------------------------------- steps in a learner

def xref(f, D, **kw):
    """the coding step solver on its own, coefficient array of its solution"""
    c = f.c
    X = dict(f.Xo)
    X['MaxMainIter'] = 1
    X['Verbose'] = False
    if f.std:
        cl = getattr(c.mod('sporco.admm.bpdn' if f.xm == 'bpdn' else 'sporco.pgm.bpdn'), 'BPDN' if f.xm == 'bpdn' else 'WeightedBPDN')
        kw = {'W': f.Wext} if f.xm == 'wbpdn' else {}
        return cl(D, f.S, LM, opt=cl.Options(X), **kw)
    B = c.mod('sporco.admm.cbpdn' if f.xm == 'admm' else 'sporco.pgm.cbpdn')
    cl = getattr(B, ('ConvBPDNMaskDcpl' if f.xm == 'admm' else 'ConvBPDNMask') if f.msk else 'ConvBPDN')
    args = [D, f.S, LM] + ([f.Wext] if f.msk else [])
    return cl(*args, opt=cl.Options(X), **f.kw)


PX = []
for _xm, _dm in (('admm', 'pgm'), ('pgm', 'cns'), ('admm', 'ism'), ('pgm', 'pgm')):
    for _msk in (None, 'N'):
        PX += [dict(l=_l, xm=_xm, dm=_dm, msk=_msk) for _l in ('1dk', '1dcdk', '1dck')]
    PX += [dict(l='1dk', xm=_xm, dm=_dm, o=_o) for _o in ('nonneg', 'nbc', 'w')]
PX += [dict(l='1dk', xm=_xm, dm='pgm', zm=1, scale=2) for _xm in ('admm', 'pgm')]
PX += [dict(l='1dk', xm='admm', dm='cns', msk='N', zm=1, scale=2), dict(l='1dcdk', xm='pgm', dm='cns', msk='N', scale=2)]
PX += [dict(l='a', xm=_x, dm=_d, scale=_s) for _x, _d in (('bpdn', 'admm'), ('wbpdn', 'pgm')) for _s in (1, 2)]
PX += [dict(l='a', xm='wbpdn', dm='pgm', msk='row', o='nonneg'), dict(l='b', xm='bpdn', dm='admm', o='w')]


@reg.case('coding_phase', PX)
def coding_phase(c, l, xm, dm, msk=None, o=None, zm=0, scale=1):
    """the coding step within the learner is the documented solver on the
    current dictionary with the given options, from the previous state"""
    X = xopt(xm)
    if o == 'nonneg':
        X['NonNegCoef'] = True
    elif o == 'nbc':
        X['NoBndryCross'] = True
    elif o == 'w':
        X['L1Weight'] = csc.vals({'a': (3, 2), 'b': (2, 2)}.get(l) or dlay_(l)[9], 9) ** 2
    f = Learner(c, l, xm, dm, msk, X=X, G=gopt(dm), iters=2, scale=scale, zm=zm, fixS=1)
    f.Xo = X
    D1 = c.const(unitD(c, f.di[:-1], 1, f.di[-1])[..., 0, :][..., ::-1] * 0.5)
    Zs, D0 = [], f.Pcn(f.D0)
    f.havoc(x=False, seq=(None, lambda k: D1))
    sc = f.b.dstep.setcoef

    def rec(Z):
        Zs.append(Z.copy())
        return sc(Z)
    f.b.dstep.setcoef = rec
    f.b.solve()
    c.eq('coding steps', len(Zs), 2)
    if not f.std:
        D0 = D0[tuple(slice(0, k) for k in f.n)]
    r = xref(f, D0.reshape(f.D0.shape))
    r.solve()
    c.eq('first coding step', Zs[0], r.getcoef())
    if scale > 1 or zm:
        return
    r.setdict(D1)
    r.solve()
    c.eq('second coding step', Zs[1], r.getcoef())
    c.eq('coefficients', f.b.getcoef(), r.getcoef())


def dref(f, Z, Y0, U0):
    c = f.c
    G = dict(f.Go)
    G.update(MaxMainIter=1, Verbose=False, ZeroMean=bool(f.zm))
    if U0 is None:
        G['X0'] = Y0
    else:
        G.update(Y0=Y0, U0=U0)
    if f.std:
        if f.xm == 'bpdn':
            cl = c.mod('sporco.admm.cmod').CnstrMOD
            G['AuxVarObj'] = False
            return cl(Z, f.S, (f.di[0], f.di[1]), opt=cl.Options(G))
        cl = c.mod('sporco.pgm.cmod').WeightedCnstrMOD
        return cl(Z, f.S, W=f.Wext, dsz=(f.di[0], f.di[1]), opt=cl.Options(G))
    nm = {'pgm': 'ConvCnstrMOD', 'ism': 'ConvCnstrMOD_IterSM', 'cg': 'ConvCnstrMOD_CG', 'cns': 'ConvCnstrMOD_Consensus'}[f.dm]
    if f.msk:
        nm = nm.replace('MOD', 'MODMaskDcpl') if f.dm != 'pgm' else 'ConvCnstrMODMask'
    B = c.mod('sporco.pgm.ccmod' if f.dm == 'pgm' else 'sporco.admm.ccmodmd' if f.msk else 'sporco.admm.ccmod')
    cl = getattr(B, nm)
    args = [Z, f.S] + ([f.Wext] if f.msk else []) + [f.dsz]
    return cl(*args, opt=cl.Options(G), **f.kw)


@contextmanager
def halfproj(c, on):
    """Replace the normalisation within the projection (decided by P05) by
    scaling"""
    if not on:
        yield
        return
    cr = c.mod('sporco.cnvrep')
    orig = cr.normalise
    cr.normalise = lambda v, dimN=2: v * 0.5
    try:
        yield
    finally:
        cr.normalise = orig


PD = []
for _xm, _dm in (('admm', 'pgm'), ('pgm', 'cns'), ('admm', 'ism'), ('admm', 'cns')):
    for _msk in (None, 'N'):
        PD += [dict(l=_l, xm=_xm, dm=_dm, msk=_msk) for _l in ('1dk', '1dcdk', '1dck')]
        PD += [dict(l='1dk', xm=_xm, dm=_dm, msk=_msk, zm=1), dict(l='1dk', xm=_xm, dm=_dm, msk=_msk, two=1),
               dict(l='1dk', xm=_xm, dm=_dm, msk=_msk, dsz=1)]
PD += [dict(l='1dcdk', xm='admm', dm=_dm, msk=_m, two=1) for _dm in ('pgm', 'cns') for _m in (None, 'N')]
PD += [dict(l='a', xm=_x, dm=_d, zm=_z) for _x, _d in (('bpdn', 'admm'), ('wbpdn', 'pgm')) for _z in (0, 1)]
PD += [dict(l='b', xm='wbpdn', dm='pgm', msk=_m) for _m in ('row', 'full')]


@reg.case('update_phase', PD)
def update_phase(c, l, xm, dm, msk=None, zm=0, two=0, dsz=0):
    """the update step within the learner is the documented solver on the
    current coefficients, from the projected initial dictionary or the
    previous state"""
    n = None if xm in ('bpdn', 'wbpdn') else LAY[l][1]
    half = two or (msk is not None and dm in ('ism', 'cns')) or (dm == 'cns' and xm == 'pgm')
    with halfproj(c, half):
        f = Learner(c, l, xm, dm, msk, X=xopt(xm), G=gopt(dm), iters=2 if two else 1, fixS=two, zm=zm, dsz=dsz)
        f.Go = gopt(dm)
        b = f.b
        D0 = (b.dstep.getdict(crop=False) if not f.std else b.dstep.getdict()).copy()
        c.eq('initial dictionary', D0.reshape(f.pad(f.D0.reshape(f.di)).shape), f.pad(f.Pcn(f.D0)[tuple(slice(0, k) for k in n)]) if n else f.Pcn(f.D0))
        pg = dm == 'pgm'
        Y0 = D0 if pg else b.dstep.Y.copy()
        U0 = None if pg else b.dstep.U.copy()
        Z = [c.const(csc.vals(f.xi, 5)), c.const(csc.vals(f.xi, 6))]
        f.havoc(d=False, seq=(lambda k: Z[k - 1], None))
        R = b.solve()
        r = dref(f, Z[0], Y0, U0)
        r.solve()
        if two:
            r.setcoef(Z[1])
            r.solve()
        c.eq('dictionary', R, r.getdict())
        c.eq('getdict', b.getdict(), r.getdict())


# ------------------------------------------------------------------- online

@contextmanager
def coder(c, Zs, seen, msk, last):
    """the coding solver returns arbitrary coefficients at the last call (fixed
    ones before)"""
    B = c.mod('sporco.admm.cbpdn')
    cl = B.ConvBPDNMaskDcpl if msk else B.ConvBPDN
    orig = cl.solve

    def fake(self):
        k = len(Zs)
        shp = self.cri.shpX
        Z = c.real('Z%d' % k, shp) if k == last else c.const(csc.vals(shp, 20 + k))
        Zs.append(Z)
        seen.append(self)
        self.Y = self.block_cat(self.block_sep0(self.Y) * 0.0, Z) if msk else Z
        F = type(self).IterationStats._fields
        self.itstat.append(self.IterationStats(*[c.real('st%d_%s' % (k, f_)) for f_ in F]))
        return Z
    cl.solve = fake
    try:
        yield
    finally:
        cl.solve = orig


OL = {
    # filter sizes, channels of the dictionary, filters, list of (N, C, K)
    'a': ((2,), 0, 2, [((3,), 0, 0)]),
    'ak': ((2,), 0, 2, [((3,), 0, 2)]),
    'a1': ((2,), 0, 1, [((3,), 0, 2)]),
    'c': ((2,), 0, 2, [((2,), 2, 0)]),
    'ck': ((2,), 0, 2, [((2,), 2, 2)]),
    'c1k': ((2,), 1, 2, [((2,), 2, 2)]),
    'c1': ((2,), 1, 2, [((2,), 2, 0)]),
    'cd': ((2,), 2, 2, [((2,), 2, 0)]),
    'cdk': ((2,), 2, 1, [((2,), 2, 2)]),
    '2d': ((2, 1), 0, 2, [((2, 2), 0, 2)]),
    '2dm': ((1, 2), 0, 1, [((2, 3), 0, 0)]),
    '2dc': ((2, 2), 0, 2, [((2, 2), 2, 2)]),
    '2dcd': ((2, 1), 2, 2, [((2, 2), 2, 0)]),
    'kk': ((2,), 0, 2, [((2,), 0, 2), ((2,), 0, 3)]),
    'kk1': ((2,), 0, 2, [((2,), 0, 2), ((2,), 0, 1)]),
    'nn': ((2,), 0, 2, [((3,), 0, 2), ((2,), 0, 2), ((3,), 0, 1)]),
    'same': ((2,), 0, 2, [((3,), 0, 2), ((3,), 0, 2)]),
    'cc': ((2,), 0, 2, [((2,), 2, 0), ((2,), 3, 0)]),
}
O = [dict(l=_l, msk=_m) for _l in OL for _m in (0, 1)]
O += [dict(l='ak', msk=0, zm=1), dict(l='cd', msk=1, zm=1), dict(l='a', msk=0, eta=1), dict(l='same', msk=0, eta=1), dict(l='nn', msk=1, eta=1),
      dict(l='ak', msk=1, wk=1), dict(l='ak', msk=1, wk=2), dict(l='ck', msk=1, wk=2), dict(l='cdk', msk=1, wk=2), dict(l='ck', msk=1, wk=1),
      dict(l='ak', msk=1, wk=3), dict(l='ak', msk=0, sc=1), dict(l='ak', msk=0, dsz=1), dict(l='cd', msk=1, dsz=1), dict(l='kk', msk=1, kinit=1)]


@reg.case('online', O)
def online(c, l, msk, zm=0, eta=0, wk=0, sc=0, dsz=0, kinit=0):
    np = c.np
    n, Cd, M, calls = OL[l]
    dimN = len(n)
    Q = c.mod('sporco.dictlrn.onlinecdl')
    cls = Q.OnlineConvBPDNMaskDictLearn if msk else Q.OnlineConvBPDNDictLearn
    Cd_ = max(Cd, 1)
    dsh = n + ((Cd,) if Cd else ()) + (M,)
    o = {'ZeroMean': bool(zm)}
    ea, eb = 10.0, 5.0
    if eta:
        o['eta_a'] = ea = 4.0
        o['eta_b'] = eb = 8.0
    dz = dsh
    D0 = unitD(c, n, Cd_, M).reshape(dsh) * (4.0 if sc else 1.0)
    if dsz:
        dz = ((1,) * dimN + dsh[dimN:-1] + (1,), n + dsh[dimN:-1] + (M - 1,))
        o['DictSize'] = dz
    D0 = c.const(D0)
    c.keep(D0)
    two = len(calls) > 1
    dimK = 0 if l in ('c', 'cc') else 1 if kinit else None
    kk = dimK if kinit else None
    out = []
    with halfproj(c, two):
        b = cls(D0, LM, cls.Options(o), dimK=kk, dimN=dimN)
        cr = c.mod('sporco.cnvrep')
        pad = lambda D, N: Lpad(np, D, n, N)
        D = cr.Pcn(D0.reshape(n + (Cd_, 1, M)), dz, (), dimN, 1 if Cd else 0, crp=True, zm=bool(zm))
        c.eq("initial dictionary", b.getdict().copy().reshape(n + (Cd_, 1, M)), D)
        Zs, seen = [], []
        with coder(c, Zs, seen, msk, len(calls) - 1):
            for i, (N, C, K) in enumerate(calls):
                ssh = N + ((C,) if C else ()) + ((K,) if K else ())
                C_, K_ = max(C, 1), max(K, 1)
                last = i == len(calls) - 1
                S = c.real('S%d' % i, ssh) if last else c.const(csc.vals(ssh, 3 + i))
                c.keep(S)
                Si = S.reshape(N + (C_, K_, 1))
                args, w2 = [S], 1.0
                if msk and wk != 3:
                    wsh = {0: N, 1: ssh, 2: N + (C_, K_, 1)}[wk]
                    W = c.real('W%d' % i, wsh, nonneg=True, hi=2) if last else c.const(csc.vals(wsh, 9 + i) ** 2)
                    c.keep(W)
                    w2 = (W.reshape(N + (1, 1, 1)) if wk == 0 else W.reshape(N + (C_, K_, 1))) ** 2
                    args.append(W)
                R = b.solve(*args, **({} if dimK is None or kinit else {'dimK': dimK})).copy()
                Z = Zs[i]
                T = c.real('T%d' % i, Z.shape)
                # the coding solver treats channels as signals in one layout
                sig = lambda a: a.reshape(N + (C_, K_, 1))
                c.eq('coding step dictionary', sig(seen[i].reconstruct(T)), sig(csc.Dmul(np, D, T, dimN)))
                c.eq('coding step signal', seen[i].S.reshape(Si.shape), Si)
                c.eq('coding step parameter', seen[i].lmbda, LM)
                Zi = Z.reshape(N + (C_ if Cd_ == 1 else 1, K_, M))
                r = w2 * (csc.Dmul(np, D, Zi, dimN) - Si)
                et = ea / (i + eb)
                G = pad(D, N) - et * csc.XTmul(np, Zi, r, N + (Cd_,), dimN)
                Dn = cr.getPcn(dz, (), dimN, 1 if Cd else 0, crp=True, zm=bool(zm))(G)
                c.eq('dictionary %d' % i, R.reshape(Dn.shape), Dn)
                c.eq('getdict %d' % i, b.getdict().copy().reshape(Dn.shape), Dn)
                st = b.itstat[i]
                c.eq('Iter', st.Iter, i)
                c.eq('Eta', st.Eta, et)
                for f_ in ('ObjFun', 'DFid', 'RegL1', 'PrimalRsdl', 'DualRsdl', 'Rho'):
                    c.eq(f_, getattr(st, f_), getattr(seen[i].itstat[-1], f_))
                if two or dsz:
                    c.eq('Cnstr', st.Cnstr, np.linalg.norm(pad(Dn, N) - G))
                    c.eq('DeltaD', st.DeltaD, np.linalg.norm(Dn - D))
                D = Dn
        c.eq('records', len(b.itstat), len(calls))
        c.unchanged()


def Lpad(np, D, n, N):
    r = np.zeros(tuple(N) + tuple(D.shape[len(N):]), dtype=D.dtype)
    r[tuple(slice(0, k) for k in n)] = D
    return r


@reg.case('online_coding', [dict(l=_l, msk=_m, o=_o) for _l in ('a', 'ak', 'cd', 'ck') for _m in (0, 1) for _o in (None, 'w', 'nonneg') if _o is None or _l == 'ak'] +
          [dict(l=_l, msk=_m, st=1) for _l in ('ak', 'cd') for _m in (0, 1)])
def online_coding(c, l, msk, o=None, st=0):
    """the coding step is the documented solver with the given options"""
    np = c.np
    n, Cd, M, calls = OL[l]
    N, C, K = calls[0]
    dimN, Cd_ = len(n), max(Cd, 1)
    Q = c.mod('sporco.dictlrn.onlinecdl')
    cls = Q.OnlineConvBPDNMaskDictLearn if msk else Q.OnlineConvBPDNDictLearn
    dsh = n + ((Cd,) if Cd else ()) + (M,)
    ssh = N + ((C,) if C else ()) + ((K,) if K else ())
    C_, K_ = max(C, 1), max(K, 1)
    D0, S = c.const(unitD(c, n, Cd_, M).reshape(dsh)), c.const(csc.vals(ssh, 3))
    xi = N + (C_ if Cd_ == 1 else 1, K_, M)
    ysh = xi if not msk else N + (1, K_, M + C_) if Cd_ > 1 else N + (C_, K_, M + 1)
    Y0, U0 = (c.const(csc.vals(ysh, 7)), c.const(csc.vals(ysh, 8))) if st else (c.real('Y0', ysh), c.real('U0', ysh))
    X = {'FastSolve': not st, 'rho': 2.0, 'RelaxParam': 1.75, 'AutoRho': {'Enabled': False, 'StdResiduals': True}, 'MaxMainIter': 1, 'Y0': Y0, 'U0': U0}
    if o == 'w':
        X['L1Weight'] = csc.vals(xi, 9) ** 2
    if o == 'nonneg':
        X['NonNegCoef'] = True
    args = [c.const(csc.vals(N, 11) ** 2)] if msk else []
    with halfproj(c, True):
        b = cls(D0, LM, cls.Options({'CBPDN': X}), dimN=dimN)
        Di = b.getdict().copy().reshape(D0.shape)
        got = []
        B = c.mod('sporco.admm.cbpdn')
        cl = B.ConvBPDNMaskDcpl if msk else B.ConvBPDN
        orig = cl.solve

        def rec(self):
            r = orig(self)
            got.append((self.getcoef().copy(), self))
            self.Y = c.const(csc.vals(self.Y.shape, 4))
            return r
        cl.solve = rec
        try:
            b.solve(S, *args)
        finally:
            cl.solve = orig
    X['Verbose'] = False
    r = cl(Di, S, LM, *args, opt=cl.Options(X), dimN=dimN)
    r.solve()
    c.eq('coding steps', len(got), 1)
    c.eq('coefficients', got[0][0].reshape(r.getcoef().shape), r.getcoef())
    if st:
        for f_ in ('ObjFun', 'DFid', 'RegL1', 'PrimalRsdl', 'DualRsdl', 'Rho'):
            c.eq(f_, getattr(b.itstat[0], f_), getattr(r.itstat[-1], f_))


SEL = {'ConvBPDN': {'admm': ('admm.cbpdn', 'ConvBPDN'), 'pgm': ('pgm.cbpdn', 'ConvBPDN')},
       'ConvCnstrMOD': {'ism': ('admm.ccmod', 'ConvCnstrMOD_IterSM'), 'cg': ('admm.ccmod', 'ConvCnstrMOD_CG'),
                        'cns': ('admm.ccmod', 'ConvCnstrMOD_Consensus'), 'pgm': ('pgm.ccmod', 'ConvCnstrMOD')},
       'ConvBPDNMask': {'admm': ('admm.cbpdn', 'ConvBPDNMaskDcpl'), 'pgm': ('pgm.cbpdn', 'ConvBPDNMask')},
       'ConvCnstrMODMask': {'ism': ('admm.ccmodmd', 'ConvCnstrMODMaskDcpl_IterSM'), 'cg': ('admm.ccmodmd', 'ConvCnstrMODMaskDcpl_CG'),
                            'cns': ('admm.ccmodmd', 'ConvCnstrMODMaskDcpl_Consensus'), 'pgm': ('pgm.ccmod', 'ConvCnstrMODMask')}}


@reg.case('selection', [dict(xm=_x, dm=_d, msk=_m) for _x, _d in PAIRS for _m in (None, 'full')])
def selection(c, xm, dm, msk):
    """the component solvers are the selected ones, with consistent options"""
    f = Learner(c, '1dk', xm, dm, msk, fixS=1, X=xopt(xm), G=gopt(dm))
    sx, sd = ('ConvBPDNMask', 'ConvCnstrMODMask') if msk else ('ConvBPDN', 'ConvCnstrMOD')
    for obj, (m, k), opt in ((f.b.xstep, SEL[sx][xm], 'CBPDN'), (f.b.dstep, SEL[sd][dm], 'CCMOD')):
        C = getattr(c.mod('sporco.' + m), k)
        c.true('selected class', isinstance(obj, C))
        c.true('options class', isinstance(f.opt[opt], C.Options))
        c.true('options used', all(obj.opt[q] == f.opt[opt, q] for q in ('MaxMainIter', 'RelStopTol', 'Verbose')))
    cl = type(f.b)
    D0, S = f.D0, f.S
    a = [D0, S, LM] + ([f.Wext] if msk else [])
    for x, d in PAIRS:
        if (x, d) != (xm, dm):
            c.raises('options for other solvers', lambda: cl(*a, opt=f.opt, xmethod=x, dmethod=d, **f.kw), ValueError)
    b = cl(*a, opt=f.opt, **f.kw)
    c.true('solvers selected by the options', type(b.xstep).__mro__[1] is type(f.b.xstep).__mro__[1] and
           type(b.dstep).__mro__[1] is type(f.b.dstep).__mro__[1])
    for bad in (dict(xmethod='ism'), dict(dmethod='admm'), dict(xmethod='')):
        c.raises('unknown solver', lambda: cl.Options(**bad), ValueError)


@reg.case('factories', [dict(mod=_m) for _m in ('ccmod', 'ccmodmd')])
def factories(c, mod):
    M = c.mod('sporco.admm.' + mod)
    nm = 'ConvCnstrMOD' if mod == 'ccmod' else 'ConvCnstrMODMaskDcpl'
    mk, mo = getattr(M, nm), getattr(M, nm + 'Options')
    Z, S, W = c.const(csc.vals((3, 1, 2, 2), 7)), c.const(csc.vals((3, 2), 3)), c.const(csc.vals((3, 1, 1, 1), 9))
    a = [Z, S] + ([W] if mod == 'ccmodmd' else []) + [(2, 2)]
    for m, s in (('ism', 'IterSM'), ('cg', 'CG'), ('cns', 'Consensus'), (None, 'Consensus')):
        C = getattr(M, nm + '_' + s)
        kw = {'method': m} if m else {}
        o = mo({'MaxMainIter': 7}, **kw)
        c.true('options class', isinstance(o, C.Options))
        c.eq('options', o['MaxMainIter'], 7)
        b = mk(*a, opt=o, dimK=1, dimN=1, **kw)
        c.true('selected class', isinstance(b, C))
        c.eq('options used', b.opt['MaxMainIter'], 7)
    c.raises('unknown method', lambda: mk(*a, method='admm', dimK=1, dimN=1), ValueError)
    c.raises('unknown method', lambda: mo(None, method=''), ValueError)
