"""P20: grid search, timers, dictionary tiling, example image and
network access, attribute handling and status formatting."""
import itertools
import types
from sx.swap import swapped
from sx.run import Registry
reg = Registry()
MODULES = ['sporco.util', 'sporco.mpiutil', 'sporco.common']
BOUNDS = ('grids of at most 6 points and 2 function values (12 for the rank partition checks, any length up to 1000 for the '
          'partition itself), 1 to 4 processes; every sequence of 3 (thorough: 4) timer operations on 2 labels with '
          'arbitrary clock increments; every sequence of at most 3 download attempts; dictionaries of at most 5 filters of 2x2 pixels')


def clock(u, f):
    import time
    t = types.ModuleType('time')
    t.__dict__.update(vars(time), time=f, perf_counter=f, monotonic=f)
    return swapped(u, ('timeit', 'default_timer', f), ('time', 'perf_counter', f),
                   *[(u.__name__, k, t) for k, v in vars(u).items() if v is time])


def osname(s):
    return ('platform', 'system', lambda: s)


# ------------------------------------------------------------- grid search
GRIDS = {'3': ([0.5, -1.0, 2.0],), '2x2': ([1.0, 2.0], [-1.0, 0.5]), '1x3': ([3.0], [1.0, 2.0, 4.0]), '2x1x2': ([0.0, 1.0], [7.0], [2.0, 3.0]),
         '2x3': ([0.0, 1.0], [2.0, 3.0, 5.0]), '1': ([2.0],)}


def grid(c, name, nv, kind='real', aslist=False):
    import numpy as np
    g = GRIDS[name]
    shp = tuple(len(a) for a in g)
    pts = list(itertools.product(*g))
    n = len(pts)
    if kind == 'int':
        tab = c.real('int:f', (n, nv or 1), lo=-9, hi=9, dtype='int64')
    else:
        tab = c.real('f', (n, nv or 1))
    look = {p: i for i, p in enumerate(pts)}

    def fn(prm):
        i = look[tuple(float(x) for x in prm)]
        if nv is None:
            return tab[i, 0]
        return tuple(tab[i, k] for k in range(nv))
    return fn, (g if aslist else tuple(np.array(a) for a in g)), shp, tab


@reg.case('nan', [dict(name=g, fmin=m, mpi=n) for g in ('3', '2x2') for m in (True, False) for n in (0, 1, 2)], paths=60)
def gsearch_nan(c, name, fmin, mpi):
    """undefined function values are never selected"""
    fn, g, shp, tab = grid(c, name, None)
    pts = list(itertools.product(*GRIDS[name]))
    bad = c.int('bad', 0, len(pts) - 1)
    for k in range(len(pts)):
        if c.branch(bad == k):
            break

    def f(prm):
        if tuple(float(x) for x in prm) == pts[k]:
            return float('nan')
        return fn(prm)
    if mpi:
        u = c.mod('sporco.mpiutil')
        res = world(c, mpi, lambda comm: u.grid_search(f, g, comm=comm, fmin=fmin))
        if res is None:
            return
    else:
        u = c.mod('sporco.util')
        with swapped(u, osname('Windows')):
            res = {0: u.grid_search(f, g, fmin=fmin)}
    for r in res.values():
        sprm, sfvl, fvmx, sidx = r
        pos = tuple(int(s) for s in sidx)
        n = [i for i, q in enumerate(itertools.product(*[range(m) for m in shp])) if q == pos][0]
        c.true('defined value selected', n != k)
        if n == k:
            continue
        c.eq('value', sfvl, tab[n, 0])
        for j in range(len(pts)):
            if j != k:
                c.le('optimal', tab[n, 0], tab[j, 0]) if fmin else c.le('optimal', tab[j, 0], tab[n, 0])
        for a in range(len(g)):
            c.eq('parameter', sprm[a], GRIDS[name][a][pos[a]])


def grid_ok(c, res, name, shp, tab, nv, fmin):
    sprm, sfvl, fvmx, sidx = res
    g = GRIDS[name]
    n = len(list(itertools.product(*g)))
    c.true('table shape', tuple(fvmx.shape) == shp + ((nv,) if nv else ()))
    c.true('indices', len(sidx) == len(shp) + (1 if nv else 0))
    c.true('parameters', len(sprm) == len(g))
    for k in range(nv or 1):
        for j, i in enumerate(itertools.product(*[range(m) for m in shp])):
            c.eq('table', fvmx[i + ((k,) if nv else ())], tab[j, k])
        pos = tuple(int(s[k]) if nv else int(s) for s in sidx[:len(shp)])
        if nv:
            c.true('value index', int(sidx[-1][k]) == k)
        c.true('index range', all(0 <= p < m for p, m in zip(pos, shp)))
        best = fvmx[pos + ((k,) if nv else ())]
        c.eq('value', sfvl[k] if nv else sfvl, best)
        for j in range(n):
            c.le('optimal', best, tab[j, k]) if fmin else c.le('optimal', tab[j, k], best)
        for a in range(len(g)):
            c.eq('parameter', sprm[a][k] if nv else sprm[a], g[a][pos[a]])
    if nv is None:
        c.eq('documented relation', fvmx[sidx], sfvl)
    else:
        for k, v in enumerate(fvmx[sidx]):
            c.eq('documented relation', v, sfvl[k])


@reg.case('grid', [dict(name=g, nv=v, fmin=m, os=o) for g in GRIDS for v in (None, 1, 2) for m in (True, False)
                   for o in ('Linux', 'Darwin') if v != 2 or g in ('3', '1', '1x3')] +
          [dict(name='2x2', nv=2, fmin=m, os='Linux') for m in (True, False)] +
          [dict(name='2x2', nv=v, fmin=True, os='Linux', aslist=True) for v in (None, 1)] +
          [dict(name='3', nv=v, fmin=True, os='Linux', nproc=n) for v in (None, 2) for n in (1, 2)], paths=400)
def gsearch(c, name, nv, fmin, os, aslist=False, nproc=None):
    u = c.mod('sporco.util')
    fn, g, shp, tab = grid(c, name, nv, aslist=aslist)

    class Pool:
        def __init__(self, processes=None, *a, **k):
            c.true('processes', processes is None or int(processes) > 0)

        def map(self, f, it, chunksize=None):
            return [f(x) for x in it]
        imap = map

        def starmap(self, f, it, chunksize=None):
            return [f(*x) for x in it]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self): pass
        def join(self): pass
        def terminate(self): pass

    kw = {} if fmin else dict(fmin=False)
    if nproc:
        kw['nproc'] = nproc
    with swapped(u, osname(os), ('multiprocessing', 'cpu_count', lambda: 4), ('os', 'cpu_count', lambda: 4),
                 ('multiprocessing', 'Pool', Pool), ('multiprocessing.pool', 'Pool', Pool)):
        res = u.grid_search(fn, g, **kw)
    grid_ok(c, res, name, shp, tab, nv, fmin)


class Need(Exception):
    pass


class Comm:
    """One process of a simulated communicator.  Collective operations
    whose contributions are not all known yet suspend the process; the
    world is re-executed until every process has finished."""

    def __init__(self, c, rank, size, hist):
        self.c, self.rank, self.size, self.hist, self.k = c, rank, size, hist, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def col(self, kind, payload):
        if self.k < len(self.hist):
            self.k += 1
            return self.hist[self.k - 1]
        e = Need()
        e.kind, e.payload = kind, payload
        raise e

    @staticmethod
    def op(op, a, b):
        from mpi4py import MPI
        if op == MPI.SUM:
            return a + b
        if op == MPI.PROD:
            return a * b
        if op == MPI.MAX:
            return a if a >= b else b
        if op == MPI.MIN:
            return b if a >= b else a
        raise NotImplementedError('MPI operation')

    def red(self, v, op):
        from mpi4py import MPI
        op = MPI.SUM if op is None else op
        a = v[0]
        for b in v[1:]:
            a = self.op(op, a, b)
        return a

    def scan(self, sendobj, op=None):
        return self.red(self.col(('scan', op), sendobj)[:self.rank + 1], op)

    def exscan(self, sendobj, op=None):
        v = self.col(('exscan', op), sendobj)[:self.rank]
        return self.red(v, op) if v else None

    def allreduce(self, sendobj, op=None):
        return self.red(self.col(('allreduce', op), sendobj), op)

    def allgather(self, sendobj):
        return list(self.col(('allgather',), sendobj))

    def bcast(self, obj, root=0):
        return self.col(('bcast', root), obj)[root]

    def gather(self, sendobj, root=0):
        v = self.col(('gather', root), sendobj)
        return list(v) if self.rank == root else None

    def Barrier(self):
        self.col(('barrier',), None)
    barrier = Barrier

    def spec(self, b):
        """array, counts, displacements, extent of a buffer specification"""
        from mpi4py import MPI
        import numpy as np
        arr, cnt, dsp, typ = b, None, None, None
        if isinstance(b, (list, tuple)):
            arr, rest = b[0], list(b[1:])
            if rest and (isinstance(rest[-1], (MPI.Datatype, str))):
                typ = rest.pop()
            if len(rest) == 1 and isinstance(rest[0], (tuple, list)) and len(rest[0]) == 2 and not np.isscalar(rest[0][0]):
                rest = list(rest[0])
            if rest:
                cnt = rest[0]
            if len(rest) > 1:
                dsp = rest[1]
        dt = np.dtype(arr.dtype)
        if typ is None:
            typ = MPI.Datatype.fromcode(dt.char)
        elif isinstance(typ, str):
            typ = MPI.Datatype.fromcode(typ)
        ext = typ.Get_size()
        nb = dt.itemsize * int(np.prod(arr.shape)) if len(arr.shape) else dt.itemsize
        want = np.dtype(MPI._typecode(typ))
        self.c.true('message type agrees with the data', (want.kind == dt.kind and want.itemsize == dt.itemsize) or
                    (dt.kind in 'iu' and want.kind in 'iu' and dt.itemsize % want.itemsize == 0))
        if nb % ext:
            raise ValueError('message: buffer length is not a multiple of the datatype extent')
        return arr, cnt, dsp, ext, nb, dt

    def flat(self, arr):
        import numpy as np
        return [arr[i] for i in np.ndindex(tuple(arr.shape))]

    def Allgather(self, s, r):
        self.gatherv('Allgather', s, r, False)

    def Allgatherv(self, s, r):
        self.gatherv('Allgatherv', s, r, True)

    def gatherv(self, kind, s, r, var):
        import numpy as np
        sa, sc, sd, se, sb, sdt = self.spec(s)
        ra, rc, rd, re_, rb, rdt = self.spec(r)
        vals = self.col((kind,), (self.flat(sa), sb, sdt))
        n = self.size
        tot = rb // re_
        if rc is None:
            rc = [tot // n + (1 if var and i < tot % n else 0) for i in range(n)]
        elif np.ndim(rc) == 0:
            rc = [int(rc)] * n
        rc = [int(x) for x in rc]
        if rd is None:
            rd = [sum(rc[:i]) for i in range(n)]
        pos = list(np.ndindex(tuple(ra.shape)))
        for i, (v, b, dt) in enumerate(vals):
            self.c.true('message types agree', dt == rdt)
            if b > rc[i] * re_:
                raise RuntimeError('MPI_ERR_TRUNCATE: message truncated')
            off = int(rd[i]) * re_ // rdt.itemsize
            self.c.true('message within the buffer', off + len(v) <= len(pos))
            for j, x in enumerate(v):
                ra[pos[off + j]] = x


def world(c, n, body):
    hist = []
    while len(hist) < 20:
        done, wait = {}, {}
        for r in range(n):
            try:
                done[r] = body(Comm(c, r, n, hist))
            except Need as e:
                wait[r] = e
        if not wait:
            return done
        c.true('no process waits for one that has finished', len(wait) == n)
        if len(wait) < n:
            return None
        same = len({w.kind[0] for w in wait.values()}) == 1
        c.true('all processes take part in the same operation', same)
        if not same:
            return None
        hist.append([wait[r].payload for r in range(n)])
    c.true('terminates', False)


@reg.case('gridmpi', [dict(name=g, nv=v, fmin=m, n=n) for g in ('3', '2x2', '1', '1x3') for v in (None, 1, 2) for m in (True, False) for n in (1, 2, 3, 4)
                      if (m or n == 2) and (v != 2 or g != '2x2')] +
          [dict(name='2x2', nv=2, fmin=True, n=2)] +
          [dict(name='2x2', nv=v, fmin=True, n=2, kind='int') for v in (None, 1)] +
          [dict(name='2x2', nv=v, fmin=True, n=n, typ=t) for v in (None, 1) for t in ('DOUBLE', 'FLOAT') for n in (1, 3)] +
          [dict(name='2x1x2', nv=v, fmin=True, n=3, aslist=True) for v in (None, 1)], paths=400)
def gsearch_mpi(c, name, nv, fmin, n, kind='real', typ=None, aslist=False):
    """every process obtains the optimum over the whole grid"""
    u = c.mod('sporco.mpiutil')
    from mpi4py import MPI
    fn, g, shp, tab = grid(c, name, nv, kind, aslist)
    kw = {} if fmin else dict(fmin=False)
    if typ:
        kw['mpidtype'] = getattr(MPI, typ)
    res = world(c, n, lambda comm: u.grid_search(fn, g, comm=comm, **kw))
    if res is None:
        return
    for r in range(n):
        if typ == 'FLOAT' and not c.sym:
            sh = shp + ((nv,) if nv else ())
            c.true('shape', tuple(res[r][2].shape) == sh)
            continue
        grid_ok(c, res[r], name, shp, tab, nv, fmin)


@reg.case('ranks', [dict(n=n) for n in (1, 2, 3, 4, 5)], paths=60)
def ranks(c, n):
    """the parts of the processes are a partition of the grid, and balanced"""
    u = c.mod('sporco.mpiutil')
    N = c.int('N', 0, 1000)
    try:
        res = world(c, n, lambda comm: u._get_rank_limits(comm, N))
        ok = res is None or all(len(res[r]) == 2 for r in res)
    except (AttributeError, TypeError):
        ok = False
    if not ok:      # an internal function: decided through grid_search (gridmpi)
        c.true('no such function', True)
        return
    if res is None:
        return
    c.eq('begin', res[0][0], 0)
    c.eq('end', res[n - 1][1], N)
    for r in range(n):
        c.le('order', res[r][0], res[r][1])
        if r:
            c.eq('contiguous', res[r][0], res[r - 1][1])
            for q in range(r):
                c.le('balanced', res[q][1] - res[q][0] - 1, res[r][1] - res[r][0])
                c.le('balanced', res[r][1] - res[r][0] - 1, res[q][1] - res[q][0])


# ------------------------------------------------------------------ timers
OPS = [('start', None), ('start', 'a'), ('start', ['a', 'b']), ('stop', None), ('stop', 'a'), ('stop', ('a', 'b')), ('stop', 'all'),
       ('reset', None), ('reset', 'a'), ('reset', ['a', 'b']), ('reset', 'all')]
CFG = {'plain': dict(), 'init': dict(labels='a'), 'list': dict(labels=['b', 'a']), 'dflt': dict(dfltlbl='a'),
       'alllbl': dict(alllbl='every', labels=('a',))}


class Model:
    """reference: accumulated and current time of each label"""

    def __init__(self, cfg):
        self.dflt, self.all = cfg.get('dfltlbl', 'main'), cfg.get('alllbl', 'all')
        l = cfg.get('labels', ())
        self.acc = {x: 0.0 for x in ([l] if isinstance(l, str) else l)}
        self.t0 = {x: None for x in self.acc}

    def names(self, lbl, op):
        if lbl is None:
            return [self.dflt]
        if lbl == self.all and op != 'start':
            return list(self.acc)
        return [lbl] if isinstance(lbl, str) else list(lbl)

    def apply(self, op, lbl, t):
        """False if the operation must be rejected"""
        nm = self.names(lbl, op)
        if op != 'start' and any(x not in self.acc for x in nm):
            return False
        for x in nm:
            if op == 'start':
                self.acc.setdefault(x, 0.0)
                if self.t0.get(x) is None:
                    self.t0[x] = t
            elif op == 'stop':
                if self.t0[x] is not None:
                    self.acc[x] = self.acc[x] + (t - self.t0[x])
                    self.t0[x] = None
            else:
                self.acc[x], self.t0[x] = 0.0, None
        return True

    def elapsed(self, x, t, total):
        cur = 0.0 if self.t0[x] is None else t - self.t0[x]
        return cur + self.acc[x] if total else cur


def clock_check(c, T, M, t):
    c.true('labels', set(T.labels()) == set(M.acc))
    for x in ('main', 'a', 'b', 'zz'):
        for total in (True, False):
            if x in M.acc:
                c.eq('elapsed', T.elapsed(x, total=total), M.elapsed(x, t, total))
            else:
                c.raises('unknown label', lambda: T.elapsed(x, total=total), KeyError)
    for total in (True, False):
        c.eq('default label', T.elapsed(total=total), M.elapsed(M.dflt, t, total) if M.dflt in M.acc else 0.0)


def timer_case(c, cfg, first, n):
    u = c.mod('sporco.util')
    now = [c.real('t0')]
    with clock(u, lambda: now[0]):
        T = u.Timer(**CFG[cfg])
        M = Model(CFG[cfg])
        clock_check(c, T, M, now[0])
        seq = list(first)
        for i in range(n):
            now[0] = now[0] + c.real('d%d' % i, pos=True)
            if i < len(seq):
                k = seq[i]
            else:
                ki = c.int('op%d' % i, 0, len(OPS) - 1)
                for k in range(len(OPS)):
                    if c.branch(ki == k):
                        break
            op, lbl = OPS[k]
            if lbl == 'all':
                lbl = M.all
            import copy
            if M.apply(op, lbl, now[0]):
                getattr(T, op)(*(() if lbl is None else (lbl,)))
            else:
                c.raises('unknown label', lambda: getattr(T, op)(*(() if lbl is None else (lbl,))), KeyError)
                return
            now[0] = now[0] + c.real('e%d' % i, pos=True)
            clock_check(c, T, M, now[0])


@reg.case('timer', [dict(cfg=k, op=i) for k in CFG for i in range(len(OPS))], paths=140, limit=200)
def timers(c, cfg, op):
    """accumulated and current times after every sequence of operations"""
    timer_case(c, cfg, (op,), 3)


@reg.case('timer4', [dict(cfg=k, op=i, op2=j) for k in ('plain', 'list') for i in range(len(OPS)) for j in range(len(OPS))], tier='thorough', paths=140, limit=200)
def timers4(c, cfg, op, op2):
    timer_case(c, cfg, (op, op2), 4)


@reg.case('context', [dict(action=a, label=l, given=g, nest=n) for a in ('StartStop', 'StopStart', None) for l in (None, 'a') for g in (True, False)
                      for n in (0, 1) if not (n and not g) and not (a == 'StopStart' and not g)])
def context(c, action, label, given, nest):
    """the timer runs exactly within (or outside) the block, also when it fails"""
    u = c.mod('sporco.util')
    now = [c.real('t0')]
    d = [c.real('d%d' % i, pos=True) for i in range(6)]
    fail = c.branch(c.int('fail', 0, 1) == 1)
    kw = {}
    if action:
        kw['action'] = action
    with clock(u, lambda: now[0]):
        T = u.Timer() if given else None
        if action == 'StopStart':
            T.start(label)
        now[0] = now[0] + d[0]
        C_ = u.ContextTimer(T, label, **kw)
        now[0] = now[0] + d[1]
        out = None
        try:
            with C_ as cm:
                c.true('context value', cm is C_)
                now[0] = now[0] + d[2]
                if nest:
                    with u.ContextTimer(T, label, 'StartStop' if action == 'StopStart' else 'StopStart'):
                        now[0] = now[0] + d[3]
                if fail:
                    raise ZeroDivisionError('body')
        except ZeroDivisionError:
            out = True
        c.true('exceptions propagate', bool(out) == bool(fail))
        now[0] = now[0] + d[4]
        want = d[0] + d[1] + d[4] + (d[3] if nest else 0) if action == 'StopStart' else d[2]
        c.eq('total', C_.elapsed(), want)
        c.eq('current', C_.elapsed(total=False), d[4] if action == 'StopStart' else 0.0)
        if given:
            c.eq('timer', T.elapsed(label), want)
        now[0] = now[0] + d[5]
        with C_:
            pass
        c.eq('reused', C_.elapsed(), want + d[5] if action == 'StopStart' else want)
    c.raises('unknown action', lambda: u.ContextTimer(T, label, action='Start'), ValueError)


# ------------------------------------------------------------------ tiling
TILE = {'3': ((2, 2, 3), None, 'f'), '5': ((1, 2, 5), None, 'f'), '4': ((2, 1, 4), None, 'f'), '1': ((2, 2, 1), None, 'f'), '2': ((2, 1, 2), None, 'f'),
        'rgb': ((2, 1, 3, 3), None, 'f'), 'mat': ((4, 3), (2, 2), 'f'), 'mat2': ((2, 5), (1, 2), 'f'), 'int': ((2, 2, 3), None, 'u'),
        'multi': ((2, 2, 3), ((1, 2, 2), (2, 1, 1)), 'f'), 'multi2': ((2, 2, 4), ((2, 2, 1), (1, 1, 3)), 'f'),
        'multirgb': ((2, 2, 3, 2), ((1, 2, 3, 1), (2, 1, 3, 1)), 'f'), 'single': ((2, 2, 2), ((1, 2, 2),), 'f')}


@reg.case('tile', [dict(k=k) for k in TILE], limit=200)
def tile(c, k):
    """every filter appears, normalised to [0, 1], at its place in the grid; the rest is white"""
    import numpy as np
    u = c.mod('sporco.util')
    shp, sz, kd = TILE[k]
    idx = list(np.ndindex(shp))
    lo, hi = idx[1 % len(idx)], idx[-1]
    if kd == 'f':       # every dictionary with its extreme values at lo and hi
        D = c.real('D', shp, lo=0, hi=1)
        D[lo], D[hi] = c.scalar(0.0), c.scalar(1.0)
        D = c.real('t') + c.real('s', pos=True) * D
    else:
        D = c.real('int:D', shp, lo=60, hi=200, dtype='uint8')
        D[lo], D[hi] = 60, 200
    c.keep(D)
    im = u.tiledict(D, sz) if sz is not None else u.tiledict(D)
    c.unchanged()
    N = shp[-1]
    if len(shp) == 2:
        full = sz + (N,)
        at = lambda r, q, n: D[r * sz[1] + q, n]
        size = [sz] * N
    else:
        full = shp
        at = lambda r, q, n: D[r, q, ..., n] if len(shp) == 4 else D[r, q, n]
        size = [shp[0:2]] * N
        if sz is not None:
            size = [s[0:2] for s in sz for _ in range(s[-1])]
    mr, mc = max(s[0] for s in size), max(s[1] for s in size)
    V = 1
    while (V + 1) ** 2 <= N:
        V += 1
    W = -(-N // V)
    ch = (shp[2],) if len(shp) == 4 else ()
    c.true('shape', tuple(im.shape) == (V * mr + V - 1, W * mc + W - 1) + ch)
    dlo, dhi = D[lo] * 1.0, D[hi] * 1.0
    seen = set()
    for n in range(N):
        r0, c0 = (n // W) * (mr + 1), (n % W) * (mc + 1)
        for r in range(size[n][0]):
            for q in range(size[n][1]):
                seen.add((r0 + r, c0 + q))
                for h in range(ch[0] if ch else 1):
                    v = at(r, q, n)
                    v = (v[h] if ch else v) * 1.0
                    p = im[(r0 + r, c0 + q) + ((h,) if ch else ())]
                    c.eq('filter', p * (dhi - dlo), v - dlo)
    for i in np.ndindex(*im.shape):
        if i[:2] not in seen:
            c.eq('background', im[i], 1.0)


# ----------------------------------------------------------------- network
@reg.case('network', [dict(maxtry=n) for n in (None, 0, 1, 2, 3)], paths=300)
def network(c, maxtry):
    """time outs are retried, at most maxtry times in all, other errors are not"""
    import io
    import socket
    u = c.mod('sporco.util')
    err = u.urlerror
    KINDS = ('ok', 'timeout', 'refused', 'http')
    calls = []
    n = 3 if maxtry is None else maxtry

    class R:
        def read(self):
            return b'content %d' % len(calls)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self): pass

    def urlopen(url, *a, **k):
        c.true('address', url == 'http://x/y')
        c.true('time limit', (a[1] if len(a) > 1 else k.get('timeout')) == (10 if maxtry is None else 4))
        i = len(calls)
        w = c.int('r%d' % i, 0, 3)
        for kd in range(4):
            if c.branch(w == kd):
                break
        kind = KINDS[kd]
        calls.append(kind)
        if kind == 'ok':
            return R()
        if kind == 'timeout':
            raise err.URLError(socket.timeout('timed out'))
        if kind == 'refused':
            raise err.URLError(ConnectionRefusedError('refused %d' % i))
        raise err.HTTPError(url, 404, 'not found', {}, io.BytesIO(b''))
    got = ex = None
    with swapped(u, ('urllib.request', 'urlopen', urlopen)):
        try:
            got = u.netgetdata('http://x/y', **({} if maxtry is None else dict(maxtry=maxtry, timeout=4)))
        except (err.URLError, ValueError) as e:
            ex = e
    c.true('attempts', len(calls) <= n)
    if n == 0:
        c.true('no attempt', isinstance(ex, ValueError) and not calls)
        return
    c.true('earlier attempts timed out', len(calls) > 0 and all(k == 'timeout' for k in calls[:-1]))
    last = calls[-1]
    if last == 'ok':
        c.true('content', ex is None and isinstance(got, io.BytesIO) and got.read() == b'content %d' % len(calls))
    else:
        c.true('error', isinstance(ex, err.URLError) and got is None)
        c.true('reported error', isinstance(ex, err.HTTPError) if last == 'http' else
               isinstance(ex.reason, socket.timeout if last == 'timeout' else ConnectionRefusedError))
        c.true('retried', last != 'timeout' or len(calls) == n)


# ---------------------------------------------------------- example images
PNG = b'\x89PNG\r\n\x1a\n' + b'\0' * 32


@reg.case('images', [dict(slash=s, given=g) for s in (False, True) for g in (True,)], paths=60)
def images(c, slash, given):
    """image files are found and grouped by their folder"""
    import os
    import tempfile
    import shutil
    u = c.mod('sporco.util')
    files = [('p.png', True), ('q.txt', False), (os.path.join('g1', 'a.png'), True), (os.path.join('g1', 'b.png'), True),
             (os.path.join('g2', 'c.png'), True), (os.path.join('g2', 'sub', 'd.png'), True)]
    sel = [f for i, f in enumerate(files) if i in (1,) or c.branch(c.int('f%d' % i, 0, 1) == 1)]
    d = tempfile.mkdtemp()
    try:
        for f, im in sel:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), 'wb') as h:
                h.write(PNG if im else b'text')
        e = u.ExampleImages(pth=d + os.sep if slash else d)
        want = [f for f, im in sel if im]
        c.true('images', sorted(e.images()) == sorted(want))
        grp = {}
        for f in want:
            grp.setdefault(os.path.dirname(f), []).append(f)
        c.true('groups', sorted(e.groups()) == sorted(grp))
        for g in grp:
            c.true('images of the group', g in e.groups() and sorted(e.groupimages(g)) == sorted(grp[g]))
    finally:
        shutil.rmtree(d)


IMG = {'grey': (2, 3), 'rgb': (2, 3, 3)}


def image_case(c, shape, init, call, group=None, crop=None, zoom=None):
    import numpy as np
    u = c.mod('sporco.util')
    img = c.real('int:img', IMG[shape], lo=0, hi=255, dtype='uint8')
    log, zl = [], []

    def imread(p, *a, **k):
        log.append(p)
        if p.endswith('none.png'):
            raise FileNotFoundError(p)
        return img

    def szoom(a, z, *r, **k):
        zl.append(z)
        s = tuple(np.broadcast_to(np.array(z, dtype=float), (a.ndim,)))
        c.true('zoom factors', s == (float(zoom),) * 2 + (1.0,) * (a.ndim - 2))
        return a[::-1, ::-1]       # stand-in for the interpolated image
    c.keep(img)
    with swapped(u, ('imageio', 'imread', imread), ('imageio.v3', 'imread', imread), ('imageio.v2', 'imread', imread), ('scipy.ndimage', 'zoom', szoom)):
        e = u.ExampleImages(pth='/nowhere/at/all', **init)
        out = e.image('x.png', group=group, idxexp=crop, **call)
        for nm in ((None,) if group is None else (group,)):
            try:
                e.image('none.png', group=nm)
                c.true('missing file', False)
            except IOError:
                c.true('missing file', True)
    c.unchanged()
    import os
    c.true('file', os.path.normpath(log[0]) == os.path.normpath('/nowhere/at/all/%sx.png' % (group + '/' if group else '')))
    opt = dict(scaled=False, dtype=None, zoom=None, gray=False)
    opt.update(init)
    opt.update({k: v for k, v in call.items() if v is not None})
    dt = np.dtype(opt['dtype'] or np.uint8)
    if opt['scaled'] and dt.kind in 'iu':
        dt = np.dtype(np.float32)
    ref = img
    if crop is not None:
        ref = ref[crop]
    if opt['zoom'] is not None:
        ref = ref[::-1, ::-1]
    c.true('zoomed once', len(zl) == (2 if 0 else 1 if opt['zoom'] is not None else 0))
    ref = ref * 1.0
    if opt['scaled']:
        ref = ref / 255.0
    gray = opt['gray'] and ref.ndim == 3
    if gray:
        ref = 0.299 * ref[..., 0] + 0.587 * ref[..., 1] + 0.114 * ref[..., 2]
    elif not (opt['gray'] and dt.kind in 'iu'):
        c.true('type', np.dtype(out.dtype) == dt)
    c.true('shape', tuple(out.shape) == tuple(ref.shape))
    c.eq('pixels', out, ref)


SET = [(dict(), dict()), (dict(scaled=True), dict()), (dict(scaled=True), dict(scaled=False)), (dict(), dict(scaled=True)), (dict(gray=True), dict()),
       (dict(gray=True), dict(gray=False)), (dict(), dict(gray=True)), (dict(scaled=True, gray=True), dict()),
       (dict(dtype='float64'), dict()), (dict(dtype='float64', scaled=True), dict()), (dict(dtype='float64'), dict(dtype='float32')),
       (dict(dtype='float64'), dict(dtype='uint8', scaled=True)), (dict(dtype='int16'), dict()), (dict(), dict(dtype='uint16', scaled=True, gray=True))]


@reg.case('image', [dict(shape=s, k=k) for s in IMG for k in range(len(SET))] + [dict(shape=s, k=0, group='g') for s in IMG])
def image(c, shape, k, group=None):
    """pixel values follow the documented options of the object and of the call"""
    image_case(c, shape, *SET[k], group=group)


@reg.case('imagez', [dict(shape=s, where=w, crop=k, scaled=a, gray=g) for s in IMG for w in ('init', 'call', 'both') for k in (False, True)
                     for a in (False, True) for g in (False, True)])
def imagez(c, shape, where, crop, scaled, gray):
    """cropping comes before rescaling"""
    import numpy as np
    init, call = dict(scaled=scaled, gray=gray), {}
    if where != 'call':
        init['zoom'] = 2.0 if where == 'both' else 0.5
    if where != 'init':
        call['zoom'] = 0.5
    image_case(c, shape, init, call, crop=np.s_[0:1, 1:] if crop else None, zoom=0.5)


# ---------------------------------------------------------------- attributes
def symfloat():
    from sx.hook import symfloat
    return symfloat


@reg.case('attr', [dict(state=s, dtype=t) for s in ('absent', 'none', 'set') for t in (None, 'np', 'type')], paths=40)
def attr(c, state, dtype):
    """values, defaults and precedence of solver attributes"""
    import numpy as np
    cm = c.mod('sporco.common')
    s = object.__new__(cm.IterativeSolver)
    old, v, d = c.real('old'), c.real('v'), c.real('d')
    br = lambda n: c.branch(c.int(n, 0, 1) == 1)
    val = v if br('val') else None
    dv = d if br('dval') else None
    rst = br('reset')
    dt = {None: None, 'np': c.np.dtype('float64'), 'type': symfloat() if c.sym else float}[dtype]
    if state == 'none':
        s.x = None
    elif state == 'set':
        s.x = old
    s.set_attr('x', val, dval=dv, dtype=dt, reset=rst)
    new = val if val is not None else dv
    want = old if state == 'set' and not rst else new
    if want is None:
        c.true('unset', s.x is None)
    else:
        c.true('set', s.x is not None)
        c.eq('value', s.x, want)
    c.true('nothing else', set(s.__dict__) == {'x'})


@reg.case('dtype', [dict(state=s, opt=o) for s in ('absent', 'none', 'set') for o in (None, 'float32', 'complex64')])
def dtype(c, state, opt):
    import numpy as np
    cm = c.mod('sporco.common')
    s = object.__new__(cm.IterativeSolver)
    if state != 'absent':
        s.dtype = None if state == 'none' else np.dtype('float16')
    # (the working variables of integer signals are floating point: see P07)
    for given, work in ((np.float64, 'float64'), (np.dtype('float32'), 'float32'), (np.dtype('int64'), 'float64')):
        if state != 'set' and hasattr(s, 'dtype'):
            s.dtype = None
        s.set_dtype({'DataType': opt if opt is None else getattr(np, opt)}, given)
        c.true('type', str(s.dtype) == str(np.dtype('float16' if state == 'set' else opt or work)))


@reg.case('status', [dict(n=n, mapped=m) for n in (1, 2, 4) for m in (False, True)], paths=130)
def status(c, n, mapped):
    """header and values of the status display are aligned"""
    cm = c.mod('sporco.common')

    def pick(nm, lo, hi):
        k = c.int(nm, lo, hi)
        for i in range(lo, hi + 1):
            if c.branch(k == i):
                return i
    w0, wd, pr = pick('w0', 4, 6), pick('wd', 6, 8), pick('pr', 0, 3)
    lbl = ('Itn', 'Fnc', 'Rho', 'DFid')[:n]
    fm = {'Rho': '%-9.1f', 'Itn': '%7d'} if mapped else None
    kw = {}
    if (w0, wd, pr) != (4, 6, 2):
        kw = dict(fwdth0=w0, fwdthdlt=wd, fprec=pr)
    h, f, ns = cm.solve_status_str(lbl, fmtmap=fm, **kw)
    c.true('separator', ns == len(h))
    wid = [7 if mapped and l == 'Itn' else 9 if mapped and l == 'Rho' else w0 if i == 0 else wd + pr for i, l in enumerate(lbl)]
    c.true('header', h == '  '.join(l.ljust(w) for l, w in zip(lbl, wid)))
    vals = [12, 1.25, 33.0, 0.5][:n]
    exp = []
    for i, (l, w) in enumerate(zip(lbl, wid)):
        if mapped and l == 'Rho':
            exp.append(('%.1f' % vals[i]).ljust(w))
        elif i == 0:
            exp.append(('%d' % vals[i]).rjust(w))
        else:
            exp.append(('%.*e' % (pr, vals[i])).rjust(w))
    c.true('values', f % tuple(vals) == '  '.join(exp))
    c.raises('format without width', lambda: cm.solve_status_str(lbl, fmtmap={'Itn': 'd'}), ValueError)
