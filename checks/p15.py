"""P15: the parallel solvers compute the documented iteration for every
grouping, number of processes and interleaving of their tasks."""
from contextlib import contextmanager
from sx.run import Registry
from sx import csc
from checks.p06 import LAY as _LAY, lay, dimk, nbc_mask
reg = Registry()
MODULES = ['sporco.admm.parcbpdn', 'sporco.dictlrn.prlcnscdl']
BOUNDS = ('one or two iterations from an arbitrary (symbolic) state and signal; every interleaving of the tasks of '
          'each parallel section (elements written by other tasks hold arbitrary values while a task runs); '
          'at most 3 groups, 2 processes, 8 samples, 2 channels, 2 signals, 4 filters; fixed rational dictionaries '
          'and parameters; Python objects other than arrays are assumed not to be modified by tasks')
LAY = dict(_LAY)
LAY['1dm'] = ((3,), (2,), 1, 1, 1, 4)
LAY['1dkm'] = ((2,), (2,), 1, 1, 2, 3)
LAY['1dcdm'] = ((2,), (2,), 2, 2, 1, 3)
LAY['1dcm'] = ((2,), (2,), 2, 1, 1, 3)
LAY['1dcdkm'] = ((2,), (1,), 2, 2, 2, 3)
LAY['2dm'] = ((2, 2), (2, 1), 1, 1, 1, 3)
LAY['2dcdm'] = ((2, 2), (1, 2), 2, 2, 1, 2)


class SimPool:
    """In-process stand-in used when replaying: every task of a map is run
    first and run after all the others, on the real code."""
    log = None
    raws = []

    def __init__(self, *a, **k):
        self.closed = False

    def map(self, f, it, chunksize=None):
        import numpy as np
        items = list(it)
        raws = SimPool.raws
        get = lambda: [np.frombuffer(r, dtype='u1').copy() for r in raws]

        def put(st):
            for r, v in zip(raws, st):
                np.frombuffer(r, dtype='u1')[:] = v
        B0 = get()
        res = [f(x) for x in items]
        fin = get()
        for i in range(len(items)):
            for first in (True, False):
                put(B0)
                rest = [x for j, x in enumerate(items) if j != i]
                for x in ([items[i]] + rest if first else rest[::-1] + [items[i]]):
                    f(x)
                for r, v in zip(raws, fin):
                    SimPool.log.append((np.frombuffer(r, dtype='u1').copy(), v))
        put(fin)
        return res

    def starmap(self, f, it, chunksize=None):
        return self.map(lambda a: f(*a), it)

    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return None


@contextmanager
def schedules(c):
    """Decide every map of the block for all interleavings; yields a list of
    pairs that have to be equal."""
    log = []
    if c.sym:
        from sx import stubs, val
        cnt = [0]

        def fresh(dt):
            cnt[0] += 1
            v = c.real('other%d' % cnt[0])
            if dt.kind == 'c':
                v = v + 1j * c.real('otheri%d' % cnt[0])
            r = val.as_S(v)
            return val.S(r.re, r.im, dt, None)
        del stubs.SHARED[:]
        del stubs.SHDT[:]
        stubs.SCHEDULE.update(log=log, fresh=fresh)
        try:
            yield log
        finally:
            stubs.SCHEDULE.update(log=None, fresh=None)
    else:
        import multiprocessing as mp
        ra, po = mp.RawArray, mp.Pool
        SimPool.log, SimPool.raws = log, []

        def rec(*a):
            r = ra(*a)
            SimPool.raws.append(r)
            return r
        mp.RawArray, mp.Pool = rec, SimPool
        try:
            yield log
        finally:
            mp.RawArray, mp.Pool = ra, po


def sched_goals(c, log):
    c.true('parallel tasks were run', len(log) > 0)
    if c.sym:
        from sx import arr
        import numpy
        a = numpy.empty(len(log), dtype=object)
        b = numpy.empty(len(log), dtype=object)
        for k, (x, y) in enumerate(log):
            a[k], b[k] = x, y
        keep = [k for k in range(len(log)) if a[k] is not b[k]]
        for k in keep:
            from sx import val
            c.goals.append(('independent of the schedule', 'eq', (val.as_S(a[k]), val.as_S(b[k]), k)))
    else:
        import numpy
        for x, y in log:
            f = x.view('f8') if x.size % 8 == 0 else x
            g = y.view('f8') if y.size % 8 == 0 else y
            if not numpy.allclose(f, g, rtol=1e-6, atol=1e-8, equal_nan=True):
                c.fails.append(('independent of the schedule', 'shared memory depends on the task order'))
                break


def clear(c):
    if c.sym:
        from sx import stubs
        del stubs.SHARED[:]
        del stubs.SHDT[:]


def groups(M, L):
    """contiguous groups of nearly equal size"""
    q, r = divmod(M, L)
    out, s = [], 0
    for i in range(L):
        e = s + q + (1 if i < r else 0)
        out.append((s, e))
        s = e
    return out


class Par:
    """ParConvBPDN with an arbitrary state and the reference iteration."""

    def __init__(self, c, l, L, nproc=1, alpha=None, rlx=1.0, W=None, w=None, nonneg=0, nbc=0, hi=0, rho=2.0,
                 fast=1, iters=1, fixS=0, state=1, opts=None, ng=None, lmnone=0):
        self.c, np = c, c.np
        self.np = np
        N, n, C, Cd, K, M = LAY[l]
        dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
        self.dimN = len(N)
        self.D = c.const(csc.vals(dsh, 5))
        self.S = c.const(csc.vals(ssh, 3)) if fixS else c.real('S', ssh)
        self.Di, self.Si = self.D.reshape(di), self.S.reshape(si)
        self.xi, self.L, self.M, self.rho, self.rlx = xi, L, M, rho, rlx
        self.lm = 0.75
        self.al = 1.0 if alpha is None else alpha
        self.grp = groups(M, L)
        self.y0s = N + (C, K, L)
        o = {'Verbose': False, 'MaxMainIter': iters, 'rho': rho, 'alpha': alpha, 'RelaxParam': rlx, 'NonNegCoef': bool(nonneg),
             'NoBndryCross': bool(nbc), 'HighMemSolve': bool(hi), 'FastSolve': bool(fast), 'RelStopTol': 0.0,
             'AbsStopTol': 0.0, 'AutoRho': {'Enabled': False}}
        self.wi = 1.0
        if w:
            o['L1Weight'] = {'M': csc.vals((1,) * (len(xi) - 1) + (M,), 9) ** 2, 'full': csc.vals(xi, 9) ** 2, 's': 0.5}[w]
            self.wi = o['L1Weight']
        self.nonneg, self.nbc = nonneg, nbc
        mask = None
        self.Wi = 1.0
        if W:
            mask = c.const(csc.vals({'N': N, 'ext': ssh, 'full': si}[W], 11) ** 2)
            self.Wi = mask.reshape(N + (1, 1, 1)) if W == 'N' else mask.reshape(si)
        if state:
            self.st = [c.real('Y0', self.y0s), c.real('Y1', xi), c.real('U0', self.y0s), c.real('U1', xi)]
            o.update(Y0=self.st[0], Y1=self.st[1], U0=self.st[2], U1=self.st[3])
        else:
            z, y = np.zeros(xi), np.zeros(self.y0s)
            self.st = [y, z, y, z]
        o.update(opts or {})
        self.N, self.n = N, n
        clear(c)
        P = c.mod('sporco.admm.parcbpdn')
        self.opt = P.ParConvBPDN.Options(o)
        self.b = P.ParConvBPDN(self.D, self.S, None if lmnone else self.lm, mask, opt=self.opt, nproc=nproc,
                               ngrp={None: L, 'none': None}.get(ng, ng), dimK=dimk(C, Cd, K), dimN=len(N))

    def Dg(self, X):
        """stack of D_G x_G over groups, last axis"""
        np = self.np
        return np.concatenate([csc.Dmul(np, self.Di[..., s:e], X[..., s:e], self.dimN) for s, e in self.grp], axis=-1)

    def check_x(self, X, tag=''):
        """X minimises the x subproblem for the current reference state"""
        c, np = self.c, self.np
        Y0, Y1, U0, U1 = self.st
        R = self.Dg(X) - Y0 + U0
        g = np.concatenate([csc.DTmul(np, self.Di[..., s:e], R[..., i:i + 1], self.dimN)
                            for i, (s, e) in enumerate(self.grp)], axis=-1)
        c.eq('xstep' + tag, g + self.al ** 2 * (X - Y1) + self.al * U1, np.zeros(self.xi))

    def advance(self, X):
        """reference y and u steps"""
        np = self.np
        Y0, Y1, U0, U1 = self.st
        r = self.rlx
        DX = r * self.Dg(X) + (1 - r) * Y0
        Xr = r * X + (1 - r) * Y1
        V = DX + U0
        W2 = self.Wi ** 2
        Y0 = V + W2 * (self.Si - np.sum(V, axis=-1, keepdims=True)) / (self.rho + self.L * W2)
        V1 = Xr + U1 / self.al
        t = self.lm / (self.al ** 2 * self.rho) * self.wi
        self.nadv = getattr(self, 'nadv', 0) + 1
        # (the soft threshold itself is decided by P01)
        Y1 = csc.soft(np, V1, t) if self.nadv == 1 else self.c.mod('sporco.prox').prox_l1(V1, t)
        if self.nonneg:
            Y1 = np.maximum(Y1, 0.0)
        if self.nbc:
            Y1 = Y1 * nbc_mask(self.np, self.xi, self.n, self.dimN)
        self.st = [Y0, Y1, V - Y0, U1 + self.al * (Xr - Y1)]
        return Y1


PC = []
for _l in ('1dm', '1dkm', '1dcdm', '1dcm', '1dcdkm', '2dm', '2dcdm'):
    for _L in (1, 2, 3):
        if not (_l == '2dcdm' and _L == 3):
            PC.append(dict(l=_l, L=_L, alpha=0.5, rlx=1.75))
PC += [dict(l='1dm', L=2, nproc=2, W='N'), dict(l='1dm', L=3, nproc=2, alpha=2.0, hi=1, rlx=1.5), dict(l='1dkm', L=2, W='ext', rlx=1.5),
       dict(l='1dkm', L=2, W='full'), dict(l='1dcdm', L=2, W='ext', nproc=2), dict(l='1dcdkm', L=2, W='N', rlx=1.5),
       dict(l='1dcm', L=2, W='ext'), dict(l='1dm', L=2, w='M', alpha=0.5), dict(l='1dkm', L=2, w='full'), dict(l='1dm', L=2, w='s'),
       dict(l='1dm', L=2, nonneg=1, rlx=1.5), dict(l='1dm', L=2, nbc=1, nonneg=1), dict(l='2dm', L=2, nbc=1), dict(l='1dcdm', L=3, nbc=1, w='M'),
       dict(l='1dm', L=2, nproc=2, ng='none', rlx=1.5), dict(l='1dkm', L=3, nproc=None, rlx=1.5), dict(l='1dm', L=1, nproc=None),
       dict(l='1dm', L=3, k0=300), dict(l='1dm', L=2, nproc=2, k0=300), dict(l='1dm', L=2, rho=None, alpha=0.5)]


@reg.case('parcbpdn', PC)
def parcbpdn(c, l, L, nproc=1, k0=0, rho=2.0, **kw):
    """two successive calls of one iteration each, then the same two
    iterations in a single call"""
    np = c.np
    p = Par(c, l, L, nproc, rho=rho, **kw)
    if rho is None:
        p.rho = 50.0 * p.lm + 1.0
        c.eq('rho', p.b.rho, p.rho)
    c.keep(p.D, p.S)
    p.b.k = k0
    R = p.b.solve().copy()
    X1, Y1 = p.b.X.copy(), p.b.Y.copy()
    p.check_x(X1)
    c.eq('ystep', Y1, p.advance(X1))
    c.eq('solution', R, Y1)
    c.eq('iterations', p.b.k, k0 + 1)
    p.b.solve()
    X2, Y2 = p.b.X.copy(), p.b.Y.copy()
    p.check_x(X2, ' (second call)')
    c.eq('ystep (second call)', Y2, p.advance(X2))
    c.unchanged()
    q = Par(c, l, L, nproc, rho=rho, iters=2, **kw)
    q.b.k = k0
    q.b.solve()
    c.eq('X, one call of two iterations', q.b.X, X2)
    c.eq('Y, one call of two iterations', q.b.Y, Y2)


@reg.case('parcbpdn_defaults', [dict(l=l, real=r) for l in ('1dm', '1dkm', '1dcdm', '1dcm', '2dm') for r in (0, 1)])
def parcbpdn_defaults(c, l, real):
    """default regularisation, penalty and group parameters are those of the
    serial solver"""
    np = c.np
    p = Par(c, l, 1, None, fixS=1, state=0, rho=None, lmnone=not real, ng='none')
    B = c.mod('sporco.admm.cbpdn')
    N, n, C, Cd, K, M = LAY[l]
    q = B.ConvBPDN(p.D, p.S, p.lm if real else None, B.ConvBPDN.Options({'Verbose': False}), dimK=dimk(C, Cd, K), dimN=len(N))
    c.eq('lmbda', p.b.lmbda, q.lmbda)
    c.eq('rho', p.b.rho, q.rho)
    c.eq('rho of lmbda', q.rho, 50.0 * q.lmbda + 1.0)
    c.true('groups', 1 <= p.b.nproc <= p.b.ngrp <= M)
    p.b.solve()
    c.true('shape', p.b.X.shape == p.xi)


@reg.case('parcbpdn_stop', [dict(l='1dm', L=2), dict(l='1dkm', L=3, nproc=2), dict(l='1dcdm', L=2, rx=1)])
def parcbpdn_stop(c, l, L, nproc=1, rx=0):
    """ended by the callback after the first of several iterations"""
    p = Par(c, l, L, nproc, rlx=1.5, iters=3, opts={'Callback': lambda b: True, 'ReturnX': bool(rx)})
    R = p.b.solve().copy()
    X1, Y1 = p.b.X.copy(), p.b.Y.copy()
    p.check_x(X1)
    c.eq('ystep', Y1, p.advance(X1))
    c.eq('solution', R, X1 if rx else Y1)
    p.b.solve()
    p.check_x(p.b.X, ' (second call)')
    c.eq('ystep (second call)', p.b.Y, p.advance(p.b.X))


@reg.case('parcbpdn_stats', [dict(l='1dm', L=2, rlx=1.5), dict(l='1dkm', L=2, rlx=1.0, W='full'), dict(l='1dcdm', L=2, rlx=1.5, W='ext', alpha=0.5),
                             dict(l='1dcm', L=3, rlx=1.5, w='M'), dict(l='1dm', L=2, rlx=1.5, ev=1), dict(l='1dm', L=2, rlx=1.0, k0=300),
                             dict(l='1dkm', L=3, rlx=1.5, ev=1, W='N', w='full')])
def parcbpdn_stats(c, l, L, k0=0, ev=0, **kw):
    """statistics of each of two iterations, evaluated at its own iterates"""
    np = c.np
    o = {'fEvalX': bool(ev), 'gEvalY': not ev}
    a = Par(c, l, L, fixS=1, state=0, iters=1, opts=o, **kw)
    a.b.solve()
    p = Par(c, l, L, fixS=1, state=0, fast=0, iters=2, opts=o, **kw)
    p.b.k = k0
    p.b.solve()
    X, Xs = [a.b.X, p.b.X], [None, None]
    st = p.b.getitstat()
    c.eq('number of records', len(p.b.itstat), 2)
    lam = p.lm
    for i in range(2):
        Y = p.advance(X[i])
        E = X[i] if ev else Y
        r = p.Wi * (csc.Dmul(np, p.Di, E, p.dimN) - p.Si)
        dfd = csc.sumsq(np, r) / 2.0
        l1 = np.sum(np.abs(p.wi * E))
        c.eq('DFid %d' % i, st.DFid[i], dfd)
        c.eq('RegL1 %d' % i, st.RegL1[i], l1)
        c.eq('ObjFun %d' % i, st.ObjFun[i], dfd + lam * l1)
        c.eq('Iter %d' % i, st.Iter[i], k0 + i)
        pr = csc.sumsq(np, p.Dg(X[i]) - p.st[0]) + p.al ** 2 * csc.sumsq(np, X[i] - Y)
        c.eq('PrimalRsdl %d' % i, st.PrimalRsdl[i] ** 2, pr)


@reg.case('parcbpdn_sched', [dict(l='1dm', L=3), dict(l='1dcdm', L=2, W='N', rlx=1.5), dict(l='1dkm', L=2, hi=1, w='full', nonneg=1),
                             dict(l='1dm', L=2, fast=0), dict(l='1dcdkm', L=3, nbc=1, alpha=0.5)])
def parcbpdn_sched(c, l, L, fast=1, **kw):
    """no interleaving of the tasks changes anything"""
    with schedules(c) as log:
        p = Par(c, l, L, 2, fast=fast, iters=2 if fast else 1, fixS=1, **kw)
        p.b.solve()
    sched_goals(c, log)


# ------------------------------------------------ parallel dictionary learning

def unitD(c, n, Cd, M):
    """rational unit norm filters"""
    import numpy
    v = numpy.zeros(n + (Cd, M))
    f = v.reshape(-1, M)
    for m in range(M):
        i = m % f.shape[0]
        if f.shape[0] > 1 and m % 2:
            f[i, m], f[(i + 1) % f.shape[0], m] = 0.6, -0.8
        else:
            f[i, m] = 1.0
    return v


DL = []
for _m in (None, 'N', 'full', 'K', 'C'):
    for _l in ('1dk', '1d', '1dcdk', '2dk'):
        if _m == 'C' and _l != '1dcdk' or _m == 'K' and _l == '1d':
            continue
        DL.append(dict(l=_l, msk=_m))
DL += [dict(l='1dk', msk=_m, rlx=1.0, np_=0) for _m in (None, 'N')]
DL += [dict(l='1dk', msk=_m, zm=1) for _m in (None, 'full')]
DL += [dict(l='1dk', msk=_m, cb=_o) for _m in (None, 'full') for _o in ('nonneg', 'nbc', 'w')]
LAY['1dk'] = ((3,), (2,), 1, 1, 2, 2)
LAY['1d'] = ((3,), (2,), 1, 1, 1, 2)
LAY['1dcdk'] = ((2,), (2,), 2, 2, 2, 2)
LAY['1dcdk1'] = ((2,), (1,), 2, 2, 2, 1)
LAY['2dk'] = ((2, 2), (2, 1), 1, 1, 2, 1)


class PDL:
    def __init__(self, c, l, msk, what, rlx=1.75, np_=2, zm=0, cb=None, acc=0, iters=1, par=True, sched=0):
        self.c, np = c, c.np
        N, n, C, Cd, K, M = LAY[l]
        ssh = N + ((C,) if C > 1 else ()) + (K,)
        si, xi, di = N + (C, K, 1), N + (1, K, M), N + (Cd, 1, M)
        dimN = len(N)
        D0 = c.const(unitD(c, n, Cd, M).reshape(n + ((Cd,) if Cd > 1 else ()) + (M,)))
        S = c.real('S', ssh) if what == 'Z' else c.const(csc.vals(ssh, 3))
        self.S = S
        X = {'rho': 2.0, 'RelaxParam': rlx, 'AutoRho': {'Enabled': False}, 'MaxMainIter': 1, 'FastSolve': True}
        G = {'rho': 4.0, 'RelaxParam': rlx, 'AutoRho': {'Enabled': False}, 'MaxMainIter': 1, 'FastSolve': True,
             'ZeroMean': bool(zm)}
        if cb == 'nonneg':
            X['NonNegCoef'] = True
        elif cb == 'nbc':
            X['NoBndryCross'] = True
        elif cb == 'w':
            X['L1Weight'] = csc.vals(xi, 9) ** 2
        ysh = xi if not msk else N + (1, K, M + C) if Cd > 1 else N + (1, K, M + 1)
        mk = lambda nm, sh, sd, sym: c.real(nm, sh) if sym else c.const(csc.vals(sh, sd))
        X['Y0'], X['U0'] = mk('Y', ysh, 5, what == 'Z'), mk('U', ysh, 6, what == 'Z')
        G['U0'] = mk('DU', di + (K,), 7, what == 'D')
        o = {'MaxMainIter': iters, 'CBPDN': X, 'CCMOD': G, 'AccurateDFid': bool(acc)}
        args = [D0, S, 0.75]
        self.W = 1.0
        if msk:
            W = c.const(csc.vals({'N': N, 'full': ssh, 'K': N + (1, K, 1), 'C': N + (C, 1, 1)}[msk], 11) ** 2)
            self.W = W.reshape(N + (1, 1, 1)) if msk == 'N' else W.reshape(si) if msk == 'full' else W
            args.append(W)
        clear(c)
        if par:
            P = c.mod('sporco.dictlrn.prlcnscdl')
            cl = P.ConvBPDNMaskDcplDictLearn_Consensus if msk else P.ConvBPDNDictLearn_Consensus
            self.b = cl(*args, opt=cl.Options(o), nproc=np_, dimK=1, dimN=dimN)
        else:
            P = c.mod('sporco.dictlrn.cbpdndlmd' if msk else 'sporco.dictlrn.cbpdndl')
            cl = P.ConvBPDNMaskDictLearn if msk else P.ConvBPDNDictLearn
            self.b = cl(*args, opt=cl.Options(o, xmethod='admm', dmethod='cns'), xmethod='admm', dmethod='cns', dimK=1, dimN=dimN)


@contextmanager
def projection(c, kind, l=None):
    """Replace the projection onto the constraint set (decided by P05) so that
    it does not obscure what is decided here: by zero, or by cropping to the
    filter support and scaling"""
    cr = c.mod('sporco.cnvrep')
    orig = cr.getPcn
    if kind is None:
        yield
        return

    def get(*a, **k):
        return lambda v: v * 0.0 if kind == 'zero' else crop(v)

    def crop(v):
        r = v * 0.5
        for k, m in enumerate(LAY[l][1]):
            r[(slice(None),) * k + (slice(m, None),)] = 0.0
        return r
    cr.getPcn = get
    try:
        yield
    finally:
        cr.getPcn = orig


def held(c, a, nm):
    """shared variable of the parallel solver, if it has it under this name"""
    return getattr(c.mod('sporco.dictlrn.prlcnscdl'), nm, None)


def zstate(c, a, s, msk):
    """state carried to the next iteration; with the one-iteration result
    for any state this extends to any number of iterations"""
    np, ax = c.np, s.b.xstep.cri.axisK
    x = s.b.xstep
    pairs = [('mp_Z_U0', x.block_sep0(x.U)), ('mp_Z_U1', x.block_sep1(x.U)), ('mp_Z_Y0', x.block_sep0(x.Y))] \
        if msk else [('mp_Z_U', x.U)]
    for nm, v in pairs:
        q = held(c, a, nm)
        if q is not None:
            c.eq('carried ' + nm, np.swapaxes(q, 0, ax + 1)[0], v)


def dstate(c, a, s, msk):
    np, d, x = c.np, s.b.dstep, s.b.xstep
    ax = x.cri.axisK
    pairs = [('mp_D_U0' if msk else 'mp_D_U', lambda q: np.moveaxis(q, 0, -1), d.U), ('mp_Df', lambda q: q, x.Df)]
    if msk:
        # Y1, U1 of the consensus solver: signal layout
        for nm, v in (('mp_D_Y1', d.Y1), ('mp_D_U1', d.U1)):
            pairs.append((nm, lambda q: np.moveaxis(q[..., 0], 0, -2), v))
    else:
        pairs.append(('mp_DSf', lambda q: np.swapaxes(q, 0, ax + 1)[0], x.DSf))
    for nm, f, v in pairs:
        q = held(c, a, nm)
        if q is not None:
            c.eq('carried ' + nm, f(q), v)


@reg.case('prlcdl_coef', DL)
def prlcdl_coef(c, l, msk, **kw):
    """coefficients after one iteration from any sparse coding state"""
    with projection(c, 'zero'):
        a = PDL(c, l, msk, 'Z', **kw)
        a.b.evaluate = lambda: (0.0, 0.0, 0.0)
        a.b.solve()
        Za = a.b.getcoef().copy()
        s = PDL(c, l, msk, 'Z', par=False, **kw)
        s.b.evaluate = lambda: None
        s.b.solve()
    c.eq('coefficients', Za, s.b.getcoef())
    zstate(c, a, s, msk)


@reg.case('prlcdl_dict', DL)
def prlcdl_dict(c, l, msk, **kw):
    """dictionary after one iteration from any dictionary update state"""
    a = PDL(c, l, msk, 'D', **kw)
    a.b.evaluate = lambda: (0.0, 0.0, 0.0)
    a.b.solve()
    Da, Df = a.b.getdict().copy(), a.b.getdict(crop=False).copy()
    s = PDL(c, l, msk, 'D', par=False, **kw)
    s.b.evaluate = lambda: None
    s.b.solve()
    c.eq('dictionary', Da, s.b.getdict())
    c.eq('dictionary, not cropped', Df, s.b.getdict(crop=False))
    dstate(c, a, s, msk)


@reg.case('prlcdl_two', [dict(l=_l, msk=_m, np_=_n) for _l, _m, _n in (('1dk', None, 2), ('1dk', 'full', 2), ('1dcdk1', None, 0), ('1dcdk1', 'C', 2),
                                                                      ('2dk', None, 2), ('2dk', 'K', 0))])
def prlcdl_two(c, l, msk, **kw):
    """two iterations in one call and in two calls agree with the serial
    solver (fixed state, exact arithmetic); the projection is replaced by
    cropping and scaling"""
    with projection(c, 'half', l):
        out = []
        for par, calls in ((True, 1), (True, 2), (False, 1)):
            a = PDL(c, l, msk, 'fixed', par=par, iters=2 // calls, **kw)
            a.b.evaluate = lambda: (0.0, 0.0, 0.0) if par else None
            for _ in range(calls):
                a.b.solve()
            out.append((a.b.getdict().copy(), a.b.getcoef().copy()))
            c.eq('iteration count', a.b.j, 2)
    for k, nm in ((0, ''), (1, ' (two calls)')):
        c.eq('dictionary' + nm, out[k][0], out[2][0])
        c.eq('coefficients' + nm, out[k][1], out[2][1])


@reg.case('prlcdl_stats', [dict(l=_l, msk=_m, acc=_a) for _l in ('1dk', '1dcdk') for _m in (None, 'N', 'full') for _a in (0, 1) if not (_a and _m is None)])
def prlcdl_stats(c, l, msk, **kw):
    np = c.np
    with projection(c, 'half', l):
        a = PDL(c, l, msk, 'D', **kw)
        a.b.solve()
    D, X = a.b.getdict(crop=False), a.b.getcoef()
    dimN = len(LAY[l][0])
    N, n, C, Cd, K, M = LAY[l]
    r = a.W * (csc.Dmul(np, D, X, dimN) - a.S.reshape(N + (C, K, 1)))
    dfd, l1 = csc.sumsq(np, r) / 2.0, np.sum(np.abs(X))
    st = a.b.getitstat()
    c.eq('DFid', st.DFid[0], dfd)
    c.eq('RegL1', st.RegL1[0], l1)
    c.eq('ObjFun', st.ObjFun[0], dfd + 0.75 * l1)
    c.eq('reconstruction', a.b.reconstruct().reshape(N + (C, K, 1)), csc.Dmul(np, D, X, dimN))


@reg.case('prlcdl_sched', [dict(l=_l, msk=_m, what=_w) for _l in ('1dk', '1dcdk') for _m in (None, 'full', 'N') for _w in ('Z', 'D')])
def prlcdl_sched(c, l, msk, what, **kw):
    with projection(c, 'zero'):
        with schedules(c) as log:
            a = PDL(c, l, msk, what, np_=2, **kw)
            a.b.evaluate = lambda: (0.0, 0.0, 0.0)
            a.b.solve()
    sched_goals(c, log)


@reg.case('isolation', [dict(cls='par'), dict(cls='cdl'), dict(cls='cdlmd')])
def isolation(c, cls):
    """a solver object that exists at the same time does not change the result"""
    res = []
    for other in (0, 1):
        if cls == 'par':
            p = Par(c, '1dm', 2, state=0, fixS=1, iters=2)
            if other:
                Par(c, '1dm', 2, state=0, rho=4.0)
        else:
            with projection(c, 'half', '1dk'):
                p = PDL(c, '1dk', 'N' if cls == 'cdlmd' else None, 'fixed', np_=0)
                p.b.evaluate = lambda: (0.0, 0.0, 0.0)
                if other:
                    PDL(c, '1dk', 'N' if cls == 'cdlmd' else None, 'Z', np_=0)
        with projection(c, 'half', '1dk'):
            p.b.solve()
        res.append(p.b.getcoef().copy())
    c.eq('coefficients', res[1], res[0])
