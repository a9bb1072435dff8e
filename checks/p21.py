"""P21: with the verbose option the solvers display, for every recorded
iteration, the statistics named by the column headers, and nothing otherwise;
the display changes nothing else."""
import contextlib
import importlib
import inspect
import io
import re
from sx.run import Registry
from sx.swap import swapped
from sx import csc
from checks.fac import Fac, STD, ONE, TWO, TVS, PDS, PD2
from checks.p15 import unitD
from checks.p16 import LAY as _LAY16, dlay_, Learner, xopt, gopt
reg = Registry()
MODULES = ['sporco.common', 'sporco.admm.admm', 'sporco.pgm.pgm', 'sporco.dictlrn.dictlrn', 'sporco.dictlrn.common',
           'sporco.dictlrn.onlinecdl', 'sporco.dictlrn.prlcnscdl']
BOUNDS = ('every solver and learner class, one to three iterations with arbitrary (symbolic) statistics; the steps themselves, '
          'decided by the other properties, are replaced; the conversion of numbers to text is not encoded')

# documented meaning of the column headers
COL = {'Itn': 'Iter', 'Fnc': 'ObjFun', 'DFid': 'DFid', 'Reg\u21131': 'RegL1', 'Regl1': 'RegL1', 'Reg\u21132': 'RegL2',
       'Reg\u21132,1': 'RegL21', 'Reg\u211321': 'RegL21', 'Reg\u21132\u2207': 'RegGrad', 'RegTV': 'RegTV', 'RegLat': 'RegLat',
       'RegSelf': 'RegSelf', 'Reg': 'Reg', 'Cnstr': 'Cnstr', 'NrmNuc': 'NrmNuc', 'Nrm\u21131': 'NrmL1', 'FVal': 'FVal', 'f': 'FVal',
       'g': 'GVal', 'g0': 'G0Val', 'g1': 'G1Val', 'r': 'PrimalRsdl', 's': 'DualRsdl', '\u03c1': 'Rho', 'Rsdl': 'Rsdl',
       'F': 'F_Btrack', 'Q': 'Q_Btrack', 'It_Bt': 'IterBTrack', 'L': 'L',
       # dictionary learning
       '\u21131': 'RegL1', 'r_X': 'XPrRsdl', 's_X': 'XDlRsdl', '\u03c1_X': 'XRho', 'r_D': 'DPrRsdl', 's_D': 'DDlRsdl', '\u03c1_D': 'DRho',
       'F_X': 'X_F_Btrack', 'Q_X': 'X_Q_Btrack', 'It_X': 'X_ItBt', 'L_X': 'X_L', 'F_D': 'D_F_Btrack', 'Q_D': 'D_Q_Btrack',
       'It_D': 'D_ItBt', 'L_D': 'D_L', 'X_Rsdl': 'X_Rsdl', 'D_Rsdl': 'D_Rsdl', 'FncX': 'ObjFunX', 'FncD': 'ObjFunD',
       # online dictionary learning
       'X r': 'PrimalRsdl', 'X s': 'DualRsdl', 'X \u03c1': 'Rho', 'D cnstr': 'Cnstr', 'D dlt': 'DeltaD', 'D \u03b7': 'Eta'}


class Display:
    """Capture of the status display.  In the symbolic run the tuple of values
    given to the row format is recorded; in a run of the real code the printed
    text itself is read back."""

    def __init__(self, c, mod):
        self.c, self.mod = c, mod
        self.sym = type(c).__name__ == 'SymCtx'
        self.rows, self.buf = [], io.StringIO()

    @contextlib.contextmanager
    def __call__(self):
        with contextlib.ExitStack() as st:
            if self.sym:
                cm = self.c.mod('sporco.common')
                real = cm.solve_status_str
                me = self

                class Fmt(str):
                    def __mod__(self, v):
                        v = v if isinstance(v, tuple) else (v,)
                        if len(v) != self.n:
                            raise TypeError('not all arguments converted during string formatting')
                        me.rows.append(v)
                        return '\x01%d' % (len(me.rows) - 1)

                def fake(hdrlbl, *a, **k):
                    h, f, n = real(hdrlbl, *a, **k)
                    F = Fmt(f)
                    F.n = len(hdrlbl)
                    return h, F, n
                st.enter_context(swapped(self.mod, ('sporco.common', 'solve_status_str', fake)))
            st.enter_context(contextlib.redirect_stdout(self.buf))
            yield

    def take(self):
        """-> header columns or None, rows, number of separator lines"""
        hdr, rows, sep = None, [], 0
        for ln in self.buf.getvalue().split('\n'):
            s = ln.strip()
            if not s:
                continue
            if not s.strip('-'):
                sep += 1
            elif s[0] == '\x01':
                rows.append(self.rows[int(s[1:])])
            elif re.match(r'-?\d', s):
                rows.append(tuple(s.split()))
            else:
                self.hline = ln
                hdr = re.split(r'\s{2,}', s)
        self.buf.truncate(0)
        self.buf.seek(0)
        self.rows.clear()
        return hdr, rows, sep

    def same(self, label, shown, val):
        c = self.c
        if self.sym:
            c.eq(label, shown, val)
            return
        m = re.search(r'\.(\d+)e', shown)
        txt = '%.*e' % (len(m.group(1)), float(val)) if m else '%d' % int(val)
        c.true(label, float(txt) == float(shown))

    def check(self, itstat, cols, header=True, names=None):
        """the rows displayed are those of the records"""
        c = self.c
        hdr, rows, sep = self.take()
        if header:
            c.true('header displayed', hdr is not None)
            c.true('header columns', hdr == list(cols))
            c.eq('separators', sep, 2)
        else:
            c.true('no header displayed', hdr is None)
            c.eq('separators', sep, 0)
        c.eq('rows', len(rows), len(itstat))
        for k, (row, st) in enumerate(zip(rows, itstat)):
            c.eq('columns', len(row), len(cols))
            for nm, v in zip(cols, row):
                self.same('%s of row %d' % (nm, k), v, getattr(st, (names or {}).get(nm) or COL[nm]))

    def silent(self, what='display'):
        self.c.true('no ' + what, self.buf.getvalue() == '')
        self.take()


# ------------------------------------------------------------- single solvers

def build(c, fam, cls, o):
    """-> (solver object, module of its framework)"""
    np = c.np
    o = dict({'Verbose': True, 'RelStopTol': 0.0}, **o)
    real = c.const
    v = lambda shp, s: real(csc.vals(shp, s))
    if fam == 'sc':
        f = Fac(c, cls, l='1d', state=False, opts=o, S=3, msk='N' if cls == 'ConvBPDNMaskDcpl' else None)
        return f.b
    M = c.mod('sporco.' + fam)
    C = getattr(M, cls)
    opt = C.Options(o)
    S, D, Z, D2 = v((3,), 3), v((2, 2), 5), v((3, 1, 1, 2), 7), v((2, 3), 5)
    kw = dict(dimN=1, dimK=0)
    if fam == 'admm.parcbpdn':
        return C(D, S, 0.75, opt=opt, nproc=1, **kw)
    if fam == 'admm.cbpdn':
        return C(D, S, opt=opt, **kw) if cls == 'GenericConvBPDN' else C(D, S, 0.75, opt=opt, **kw)
    if fam in ('admm.ccmod', 'pgm.ccmod'):
        kw['dsz'] = (2, 2)
        return C(Z, S.reshape(3, 1, 1, 1), opt=opt, **(dict(kw, W=v((3, 1, 1, 1), 9)) if 'Mask' in cls else kw))
    if fam == 'admm.ccmodmd':
        return C(Z, S.reshape(3, 1, 1, 1), v((3, 1, 1, 1), 9), (2, 2), opt=opt, **kw)
    if fam in ('admm.cmod', 'pgm.cmod'):
        return C(v((3, 2), 7), v((2, 2), 3), dsz=(2, 3), opt=opt, **({'W': v((2, 2), 9)} if cls[0] == 'W' else {}))
    if fam == 'admm.bpdn':
        return C(D2, v((2, 2), 3), opt=opt)
    if fam == 'pgm.bpdn':
        return C(D2, v((2, 2), 3), 0.75, opt=opt, **({'W': v((2, 2), 9)} if cls[0] == 'W' else {}))
    if fam == 'pgm.cbpdn':
        return C(D, S, 0.75, opt=opt, **(dict(kw, W=v((3, 1, 1, 1), 9)) if 'Mask' in cls else kw))
    if fam in ('admm.tvl1', 'admm.tvl2'):
        a = (v((2, 2), 3), 0.75)
        return C(*(a if 'Denoise' in cls else (v((2, 1), 5),) + a), opt=opt)
    if fam == 'admm.rpca':
        return C(v((2, 2), 3), opt=opt)
    if fam == 'admm.spline':
        return C(v((2, 3), 3), 0.75, opt=opt)
    one = lambda *a: np.zeros((2,))
    if fam == 'admm.ppp':
        return C((2,), *{'PPP': (one, one, one), 'PPPConsensus': ((one, one),), 'GenericPPP': (), 'GenericPPPConsensus': (2,)}[cls], opt=opt)
    if fam == 'pgm.ppp':
        return C((2,), *{'PPP': (one, one, one), 'GenericPPP': ()}[cls], opt=opt)
    if fam == 'admm.admm':
        t = np.dtype(np.float64)
        if cls == 'ADMM':
            return C(2, (2,), (2,), t, opt)
        if cls == 'ADMMEqual':
            return C((2,), t, opt)
        if cls == 'ADMMTwoBlockCnstrnt':
            return C(2, (4,), 0, 2, t, opt)
        if cls == 'WeightedADMMConsensus':
            return C(2, v((2,), 4), (2,), t, opt)
        return C(2, (2,), t, opt)
    if fam == 'pgm.pgm':
        t = np.dtype(np.float64)
        return C((2,), t, opt) if cls == 'PGM' else C((3,), None, (0,), t, opt)
    raise ValueError(fam)


# header columns between the iteration number and the residuals
HDR = {}
for _k in ('BPDN', 'ConvBPDN', 'ConvBPDNMaskDcpl', 'ConvProdDictBPDN'):
    HDR['sc', _k] = ('Fnc', 'DFid', 'Reg\u21131')
for _k in ('BPDNJoint', 'ConvBPDNJoint', 'ConvProdDictBPDNJoint'):
    HDR['sc', _k] = ('Fnc', 'DFid', 'Reg\u21131', 'Reg\u21132,1')
for _k in ('ElasticNet', 'ConvElasticNet'):
    HDR['sc', _k] = ('Fnc', 'DFid', 'Reg\u21131', 'Reg\u21132')
for _k in ('ConvBPDNGradReg', 'ConvL1L1Grd', 'ConvProdDictL1L1Grd'):
    HDR['sc', _k] = ('Fnc', 'DFid', 'Reg\u21131', 'Reg\u21132\u2207')
HDR['sc', 'ConvProdDictL1L1GrdJoint'] = ('Fnc', 'DFid', 'Reg\u211321', 'Reg\u21132\u2207')
for _k in ('BPDNProjL1', 'MinL1InL2Ball', 'ConvBPDNProjL1', 'ConvMinL1InL2Ball'):
    HDR['sc', _k] = ('Fnc', 'Cnstr')
for _k in TVS:
    HDR['sc', _k] = ('Fnc', 'DFid', 'Reg\u21131', 'RegTV')
HDR['sc', 'ConvBPDNInhib'] = ('Fnc', 'DFid', 'Reg\u21131', 'RegLat', 'RegSelf')
HDR['admm.bpdn', 'GenericBPDN'] = HDR['admm.cbpdn', 'GenericConvBPDN'] = ('Fnc', 'DFid', 'Reg')
HDR['admm.parcbpdn', 'ParConvBPDN'] = ('Fnc', 'DFid', 'Regl1')
for _k in ('IterSM', 'CG', 'Consensus'):
    HDR['admm.ccmod', 'ConvCnstrMOD_' + _k] = HDR['admm.ccmodmd', 'ConvCnstrMODMaskDcpl_' + _k] = ('DFid', 'Cnstr')
HDR['admm.cmod', 'CnstrMOD'] = ('DFid', 'Cnstr')
for _k in ('TVL1Denoise', 'TVL1Deconv', 'TVL2Denoise', 'TVL2Deconv'):
    HDR['admm.tvl1' if '1' in _k else 'admm.tvl2', _k] = ('Fnc', 'DFid', 'RegTV')
HDR['admm.rpca', 'RobustPCA'] = ('Fnc', 'NrmNuc', 'Nrm\u21131', 'Cnstr')
HDR['admm.spline', 'SplineL1'] = ('Fnc', 'DFid', 'Reg')
HDR['admm.ppp', 'PPP'] = HDR['admm.ppp', 'GenericPPP'] = ('FVal',)
HDR['admm.ppp', 'PPPConsensus'] = HDR['admm.ppp', 'GenericPPPConsensus'] = ()
for _k in ('ADMM', 'ADMMEqual', 'ADMMConsensus', 'WeightedADMMConsensus'):
    HDR['admm.admm', _k] = ('Fnc', 'f', 'g')
HDR['admm.admm', 'ADMMTwoBlockCnstrnt'] = ('Fnc', 'f', 'g0', 'g1')
for _f, _k in (('bpdn', 'BPDN'), ('bpdn', 'WeightedBPDN'), ('cbpdn', 'ConvBPDN'), ('cbpdn', 'ConvBPDNMask')):
    HDR['pgm.' + _f, _k] = ('Fnc', 'DFid', 'Reg\u21131')
for _f, _k in (('ccmod', 'ConvCnstrMOD'), ('ccmod', 'ConvCnstrMODMask'), ('cmod', 'CnstrMOD'), ('cmod', 'WeightedCnstrMOD')):
    HDR['pgm.' + _f, _k] = ('DFid', 'Cnstr')
HDR['pgm.ppp', 'PPP'] = HDR['pgm.ppp', 'GenericPPP'] = ('FVal',)
HDR['pgm.pgm', 'PGM'] = HDR['pgm.pgm', 'PGMDFT'] = ('Fnc', 'f', 'g')


def mute(c, b, tag='st'):
    """replace the steps; the statistics of every iteration are arbitrary"""
    nop = lambda *a, **k: None
    pgm = hasattr(b, 'grad_f')
    for nm in ('xstep', 'relax_AX', 'ystep', 'ustep', 'update_rho', 'on_iteration_start'):
        setattr(b, nm, nop)
    b.getmin = nop
    F = type(b).IterationStats._fields
    n = [0]
    objv = lambda q: tuple(c.real('%s%d_%s' % (tag, n[0], f)) for f in q)

    def stats(k, *a):
        n[0] += 1
        return type(b).IterationStats(*[k if f == 'Iter' else c.real('%s%d_%s' % (tag, n[0], f)) for f in F])
    b.iteration_stats = stats
    if pgm:
        b.compute_residuals = lambda: (1.0, 0.5)
        if b.backtrack is not None:
            b.backtrack.update = nop
    else:
        b.compute_residuals = lambda: (1.0, 1.0, 0.5, 0.5)


def columns(fam, cls, auto, bt):
    h = ('Itn',) + HDR[fam, cls]
    if fam.startswith('pgm'):
        return h + ('Rsdl',) + (('F', 'Q', 'It_Bt', 'L') if bt else ())
    return h + ('r', 's') + (('\u03c1',) if auto else ())


A = [dict(fam=_f, cls=_c) for _f, _c in HDR]


@reg.case('solver', A, limit=120)
def solver(c, fam, cls):
    pgm = fam.startswith('pgm')
    mod = c.mod('sporco.pgm.pgm' if pgm else 'sporco.admm.admm')
    for on, hd in ((0, True), (1, True), (1, False)):
        o = {'MaxMainIter': 2, 'StatusHeader': hd}
        if pgm:
            if on:
                o['Backtrack'] = c.mod('sporco.pgm.backtrack').BacktrackStandard()
        else:
            o['AutoRho'] = {'Enabled': bool(on)}
        d = Display(c, mod)
        with d():
            b = build(c, fam, cls, o)
            d.silent('display on construction')
            mute(c, b, 'a%d%d_' % (on, hd))
            b.solve()
        c.eq('records', len(b.itstat), 2)
        d.check(b.itstat, columns(fam, cls, on, on), hd)
        # not verbose, and without statistics
        for q in ({'Verbose': False}, {'FastSolve': True}):
            with d():
                b = build(c, fam, cls, dict(o, **q))
                mute(c, b, 'b')
                b.solve()
            if 'Verbose' in q:
                d.silent()
                c.eq('records', len(b.itstat), 2)
            else:
                c.eq('records without statistics', len(b.itstat), 0)
                c.true('no rows without statistics', not d.take()[1])


@reg.case('resumed', [dict(fam='admm.admm', cls='ADMMEqual'), dict(fam='pgm.pgm', cls='PGM'), dict(fam='admm.admm', cls='ADMMTwoBlockCnstrnt'),
                      dict(fam='pgm.pgm', cls='PGMDFT')])
def resumed(c, fam, cls):
    """iteration numbers continue, one display per call, callbacks see the
    record, and a stop by the callback ends the display"""
    pgm = fam.startswith('pgm')
    mod = c.mod('sporco.pgm.pgm' if pgm else 'sporco.admm.admm')
    calls = []

    def cb(obj):
        calls.append(len(obj.itstat))
        return len(calls) in (2, 5)
    d = Display(c, mod)
    with d():
        b = build(c, fam, cls, {'MaxMainIter': 3, 'Callback': cb, **({} if pgm else {'AutoRho': {'Enabled': False}})})
        mute(c, b)
        done = 0
        for n in (2, 3, 3):
            b.solve()
            new = b.itstat[done:]
            c.eq('records of the call', len(new), n)
            for i, s in enumerate(new):
                c.eq('iteration number', s.Iter, done + i)
            d.check(new, columns(fam, cls, 0, 0))
            done += n


# -------------------------------------------------------------------- learners

PAIRS = [('admm', _d) for _d in ('ism', 'cg', 'cns', 'pgm')] + [('pgm', _d) for _d in ('ism', 'cg', 'cns', 'pgm')]
L_ = [dict(xm=_x, dm=_d, acc=_a) for _x, _d in PAIRS for _a in (0, 1)]
L_ += [dict(xm=_x, dm=_d, bt=_b) for _x, _d in PAIRS for _b in (1, 2, 3)
       if not (_b & 1 and _x != 'pgm') and not (_b & 2 and _d != 'pgm')]
L_ += [dict(xm=_x, dm=_d, acc=_a, msk='full') for _x, _d in PAIRS for _a in (0, 1)]
L_ += [dict(xm='pgm', dm='pgm', msk='full', bt=3), dict(xm='bpdn', dm='admm'), dict(xm='bpdn', dm='admm', acc=1)]
L_ += [dict(xm='wbpdn', dm='pgm', acc=_a) for _a in (0, 1)]


def xfields(pgm, bt, t):
    """record field -> field of the statistics of the step"""
    if not pgm:
        return {t + 'PrRsdl': 'PrimalRsdl', t + 'DlRsdl': 'DualRsdl', t + 'Rho': 'Rho'}
    o = {t + '_L': 'L', t + '_Rsdl': 'Rsdl'}
    if bt:
        o.update({t + '_F_Btrack': 'F_Btrack', t + '_Q_Btrack': 'Q_Btrack', t + '_ItBt': 'IterBTrack'})
    return o


def xcols(pgm, bt, t):
    if not pgm:
        return ['r_' + t, 's_' + t, '\u03c1_' + t]
    return (['F_' + t, 'Q_' + t, 'It_' + t] if bt else []) + ['L_' + t]


@reg.case('learner', L_, limit=120)
def learner(c, xm, dm, acc=0, bt=0, msk=None):
    """records and display of dictionary learning"""
    np = c.np
    BT = c.mod('sporco.pgm.backtrack')
    std = xm in ('bpdn', 'wbpdn')
    l = 'a' if std else '1dk'
    X, G = {}, {}
    if bt & 1:
        X['Backtrack'] = BT.BacktrackStandard()
    if bt & 2:
        G['Backtrack'] = BT.BacktrackRobust()
    xp, dp = xm in ('pgm', 'wbpdn'), dm == 'pgm'
    for hd in (True, False):
        d = Display(c, c.mod('sporco.dictlrn.dictlrn'))
        with d():
            f = Learner(c, l, xm, dm, msk, acc, X=dict(xopt(xm), **X), G=dict(gopt(dm), **G), iters=2, fixS=1,
                        opt={'Verbose': True, 'StatusHeader': hd})
            b = f.b
            d.silent('display on construction')
            f.havoc()
            ev = []
            if acc:
                def evaluate():
                    ev.append({k: c.real('ev%d_%s' % (len(ev), k)) for k in ('ObjFun', 'DFid', 'RegL1')})
                    return ev[-1]
                b.evaluate = evaluate
            b.solve()
        c.eq('records', len(b.itstat), 2)
        for i, st in enumerate(b.itstat):
            xs, ds = b.xstep.itstat[i], b.dstep.itstat[i]
            c.eq('Iter', st.Iter, i)
            for k in ('ObjFun', 'DFid', 'RegL1'):
                c.eq(k, getattr(st, k), ev[i][k] if acc else getattr(xs, k))
            c.eq('Cnstr', st.Cnstr, ds.Cnstr)
            fx, fd = xfields(xp, bt & 1, 'X'), xfields(dp, bt & 2, 'D')
            if xm == 'wbpdn':
                fx, fd = {'XL': 'L', 'XRsdl': 'Rsdl'}, {'DL': 'L', 'DRsdl': 'Rsdl'}
            for k, q in fx.items():
                c.eq(k, getattr(st, k), getattr(xs, q))
            for k, q in fd.items():
                c.eq(k, getattr(st, k), getattr(ds, q))
        if xm == 'wbpdn':
            cols = ['Itn', 'Fnc', 'DFid', '\u21131', 'Cnstr', 'X_Rsdl', 'X_L', 'D_Rsdl', 'D_L']
            names = {'X_L': 'XL', 'D_L': 'DL', 'X_Rsdl': 'XRsdl', 'D_Rsdl': 'DRsdl'}
        else:
            cols = ['Itn', 'Fnc', 'DFid', '\u21131', 'Cnstr'] + xcols(xp, bt & 1, 'X') + xcols(dp, bt & 2, 'D')
            names = None
        d.check(b.itstat, cols, hd, names)
    with d():
        f = Learner(c, l, xm, dm, msk, acc, X=dict(xopt(xm), **X), G=dict(gopt(dm), **G), iters=2, fixS=1)
        f.havoc()
        f.b.solve()
    d.silent()


@reg.case('generic learner', [dict(dflt=_d, stop=_s) for _d in (0, 1) for _s in (0, 1)])
def generic(c, dflt, stop):
    """user defined steps and statistics, two calls of the solve method"""
    from checks.p16 import Step
    DL = c.mod('sporco.dictlrn.dictlrn')
    for hd in (True, False):
        d = Display(c, DL)
        cols = ['Itn', 'FncX', 'r_X', 's_X', '\u03c1_X', 'FncD', 'r_D', 's_D', '\u03c1_D'] if dflt else ['Itn', 'b', 'a x', 'cc']
        names = None if dflt else {'b': 'A', 'a x': 'C', 'cc': 'B'}
        with d():
            isc = None
            if not dflt:
                isc = DL.IterStatsConfig(isfld=['Iter', 'A', 'B', 'C', 'Time'], isxmap={'A': 'ObjFun', 'B': 'Rho'}, isdmap={'C': 'ObjFun'},
                                         evlmap={}, hdrtxt=cols, hdrmap=dict(names, Itn='Iter'), fmtmap={'b': '%12.3e'})
            n = []

            def cb(o):
                n.append(0)
                return len(n) == 2
            o = {'MaxMainIter': 3, 'Verbose': True, 'StatusHeader': hd}
            if stop:
                o['Callback'] = cb
            b = DL.DictLearn(Step(c, 'x', []), Step(c, 'd', []), DL.DictLearn.Options(o), isc)
            d.silent('display on construction')
            b.solve()
            m = 2 if stop else 3
            c.eq('records', len(b.itstat), m)
            d.check(b.itstat, cols, hd, names)
            b.solve()
            d.check(b.itstat[m:], cols, hd, names)
            c.eq('records', len(b.itstat), m + 3)


@reg.case('online', [dict(msk=_m) for _m in (0, 1)])
def online(c, msk):
    """header, one row per call, and the final separator"""
    Q = c.mod('sporco.dictlrn.onlinecdl')
    cls = Q.OnlineConvBPDNMaskDictLearn if msk else Q.OnlineConvBPDNDictLearn
    D0 = c.const(unitD(c, (2,), 1, 2).reshape(2, 2))
    S = c.const(csc.vals((3,), 3))
    cols = ['Itn', 'X r', 'X s', 'X \u03c1', 'D cnstr', 'D dlt', 'D \u03b7']
    for verb, hd in ((True, True), (True, False), (False, True)):
        d = Display(c, Q)
        with d():
            b = cls(D0, 0.75, cls.Options({'Verbose': verb, 'StatusHeader': hd}), dimK=0, dimN=1)
            nop = lambda *a, **k: None
            for nm in ('init_vars', 'xstep', 'dstep'):
                setattr(b, nm, nop)
            if msk:
                b.solve = lambda S: (b.manage_itstat(), setattr(b, 'j', b.j + 1))
            F = type(b).IterationStats._fields
            b.iteration_stats = lambda: type(b).IterationStats(*[b.j if f == 'Iter' else c.real('s%d_%s' % (b.j, f)) for f in F])
            d.silent('display on construction')
            b.display_start()
            b.solve(S)
            b.solve(S)
            b.display_end()
        c.eq('records', len(b.itstat), 2)
        if verb:
            d.check(b.itstat, cols, hd)
        else:
            d.silent()
        st = b.getitstat()
        for i in range(2):
            for f in F:
                c.eq('statistics ' + f, getattr(st, f)[i], getattr(b.itstat[i], f))


@reg.case('consensus', [dict(msk=_m, stop=_s) for _m in (0, 1) for _s in (0, 2)])
def consensus(c, msk, stop):
    """parallel consensus learning: records, display and callback"""
    np = c.np
    P = c.mod('sporco.dictlrn.prlcnscdl')
    cls = P.ConvBPDNMaskDcplDictLearn_Consensus if msk else P.ConvBPDNDictLearn_Consensus
    D0 = c.const(unitD(c, (2,), 1, 2).reshape(2, 2))
    S = c.const(csc.vals((3, 2), 3))
    args = [D0, S, 0.75] + ([c.const(csc.vals((3,), 9) ** 2)] if msk else [])
    for verb, hd in ((True, True), (True, False), (False, True)):
        seen = []

        def cb(o):
            seen.append((o.j, len(o.itstat)))
            return len(seen) == stop
        d = Display(c, P)
        with d():
            b = cls(*args, opt=cls.Options({'Verbose': verb, 'StatusHeader': hd, 'MaxMainIter': 3, 'Callback': cb}), nproc=0, dimK=1, dimN=1)
            d.silent('display on construction')
            b.step = lambda: None
            b.getdict = lambda *a, **k: None
            b.evaluate = lambda: tuple(c.real('ev%d_%d' % (b.j, i)) for i in range(3))
            b.solve()
        m = stop or 3
        c.eq('iterations', b.j, m)
        c.true('callback', seen == [(i, i + 1) for i in range(m)])
        c.eq('records', len(b.itstat), m)
        st = b.getitstat()
        for i in range(m):
            c.eq('Iter', b.itstat[i].Iter, i)
            for k, f in enumerate(('ObjFun', 'DFid', 'RegL1')):
                c.eq(f, getattr(b.itstat[i], f), c.real('ev%d_%d' % (i, k)))
                c.eq(f, getattr(st, f)[i], c.real('ev%d_%d' % (i, k)))
        if verb:
            d.check(b.itstat, ['Itn', 'Fnc', 'DFid', 'Reg\u21131'], hd)
        else:
            d.silent()


@reg.case('neutral', [dict(kind=_k, on=_o) for _k in ('ADMMEqual', 'PGM') for _o in (0, 1)], paths=64)
def neutral(c, kind, on):
    """iterations of a user defined problem do not depend on the display
    options"""
    np = c.np
    pgm = kind == 'PGM'
    mod = c.mod('sporco.pgm.pgm' if pgm else 'sporco.admm.admm')
    t = np.dtype(np.float64)
    res = []
    for verb, hd in ((False, True), (True, True), (True, False)):
        d = Display(c, mod)
        with d():
            if pgm:
                class Mine(mod.PGM):
                    def __init__(self, opt):
                        super(Mine, self).__init__((2,), t, opt)
                        self.Y = self.X.copy()

                    def prox_g(self, V):
                        return 0.5 * V

                    def grad_f(self, V=None):
                        return (self.Y if V is None else V) - c.real('S', (2,))

                    def obfn_f(self, X=None):
                        return c.np.sum((self.X if X is None else X) ** 2)

                    def obfn_g(self, X=None):
                        return c.np.sum(self.X if X is None else X)

                    def rsdl(self):
                        return 1.0
                o = {'X0': c.real('X0', (2,)), 'L': 2.0, 'RelStopTol': 0.5}
                if on:
                    o['Monotone'] = True
            else:
                class Mine(mod.ADMMEqual):
                    def __init__(self, opt):
                        super(Mine, self).__init__((2,), t, opt)

                    def xstep(self):
                        self.X = 0.5 * (self.Y - self.U) + c.real('S', (2,))

                    def ystep(self):
                        self.Y = 0.25 * (self.AX + self.U)

                    def obfn_f(self, X):
                        return c.np.sum(X ** 2)

                    def obfn_g(self, Y):
                        return c.np.sum(Y)

                    def compute_residuals(self):
                        return 4.0, 0.5, 0.25, 0.25
                o = {'Y0': c.real('Y0', (2,)), 'U0': c.real('U0', (2,)), 'rho': 2.0, 'RelStopTol': 0.0}
                o['AutoRho'] = {'Enabled': bool(on), 'Period': 1, 'AutoScaling': False, 'RsdlRatio': 2.0, 'Scaling': 2.0}
            b = Mine(Mine.Options(dict(o, Verbose=verb, StatusHeader=hd, MaxMainIter=2)))
            R = b.solve()
        if verb:
            hdr = ('Itn', 'Fnc', 'f', 'g') + (('Rsdl',) if pgm else ('r', 's') + (('\u03c1',) if on else ()))
            d.check(b.itstat, hdr, hd)
        else:
            d.silent()
        v = [R, b.X, b.Y] + ([] if pgm else [b.U, b.rho])
        res.append((v, list(b.itstat)))
    for v, st in res[1:]:
        for p, q in zip(v, res[0][0]):
            c.eq('state', p, q)
        c.eq('records', len(st), len(res[0][1]))
        for p, q in zip(st, res[0][1]):
            for f in p._fields:
                if f != 'Time' and getattr(p, f) is not None:
                    c.eq(f, getattr(p, f), getattr(q, f))
