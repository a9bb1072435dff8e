"""Harness context, path exploration, discharge of goals, replay."""
from __future__ import annotations
import importlib
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AssumeFail(BaseException):
    """Concrete input outside the assumptions of the harness."""


class CaseDef:
    def __init__(self, name, fn, kw, tier, limit, paths, tries):
        self.name, self.fn, self.kw = name, fn, kw
        self.tier, self.limit, self.paths = tier, limit, paths
        self.tries = tries


class Registry:
    """Collects the cases of one property module."""

    def __init__(self):
        self.cases = []

    def case(self, name, grid=None, tier='quick', limit=60, paths=64,
             tries=40):
        def deco(fn):
            for kw in (grid or [{}]):
                kw = dict(kw)
                t = kw.pop('_tier', tier)
                lim = kw.pop('_limit', limit)
                nm = name
                if kw:
                    nm += '[' + ','.join(
                        '%s=%s' % (k, str(v).replace(' ', ''))
                        for k, v in kw.items()) + ']'
                self.cases.append(CaseDef(nm, fn, kw, t, lim, paths, tries))
            return fn
        return deco


# --------------------------------------------------------------- contexts

class Base:
    def sizes(self):
        return {}

    def cplx(self, name, shape=(), **k):
        re = self.real(name + '.re', shape, **k)
        im = self.real(name + '.im', shape, **k)
        return re + 1j * im

    def keep(self, *arrs):
        """Remember arrays that the code under test must not modify."""
        if not hasattr(self, '_kept'):
            self._kept = []
        for a in arrs:
            self._kept.append((a, a.copy()))

    def unchanged(self, label='arguments not modified'):
        for a, b in getattr(self, '_kept', ()):
            self.eq(label, a, b)

    def all(self, label, conds):
        for k, x in enumerate(conds):
            self.true('%s#%d' % (label, k), x)


class ConcCtx(Base):
    """Runs a harness on the unmodified library with numpy."""
    mode = 'conc'
    sym = False

    def __init__(self, values=None, seed=0, edge=False):
        import numpy
        self.np = numpy
        self.values = dict(values or {})
        self.given = values is not None
        self.rng = random.Random(seed)
        self.edge = edge
        self.fails = []
        self.seen = {}
        self.info = {}

    def mod(self, name):
        return importlib.import_module(name)

    def floatfn(self):
        pass

    def lib(self, name):
        return importlib.import_module(name)

    def real(self, name, shape=(), lo=None, hi=None, pos=False, nonneg=False,
             dtype='float64'):
        import numpy as np
        n = 1
        shp = (shape,) if isinstance(shape, int) else tuple(shape)
        for s in shp:
            n *= s
        if name not in self.values:
            l = lo if lo is not None else (0.25 if pos else (0.0 if nonneg else -2.0))
            h = hi if hi is not None else max(2.0, l + 2.0)
            v = []
            for _ in range(n):
                x = round(self.rng.uniform(l, h) * 64) / 64
                if self.edge and self.rng.random() < 0.35:
                    x = self.rng.choice([0.0, 1.0, -1.0, l, h])
                v.append(min(max(x, l), h))
                if name.startswith('int:'):
                    v[-1] = float(round(v[-1]))
                if pos and v[-1] <= 0:
                    v[-1] = 0.25
            self.values[name] = v
        v = self.values[name]
        if name.startswith('int:'):
            v = [float(round(x)) for x in v]
        a = np.array(v, dtype=dtype).reshape(shp)
        return a if shp else dtype_scalar(a, dtype)

    def int(self, name, lo, hi):
        name = 'int:' + name
        if name not in self.values:
            self.values[name] = [float(self.rng.randint(lo, hi))]
        return int(round(self.values[name][0]))

    def const(self, a, dtype='float64'):
        import numpy as np
        return np.asarray(a, dtype=dtype)

    def scalar(self, v):
        return float(v)

    def assume(self, cond):
        import numpy as np
        if not bool(np.all(cond)):
            raise AssumeFail()

    def _rec(self, label, v):
        import numpy as np
        a = np.asarray(v)
        if a.dtype.kind in 'fciub' and a.size <= 400:
            a = a.astype(complex).ravel()
            self.seen.setdefault(label, [[x.real, x.imag] for x in a])

    def eq(self, label, a, b, tol=None):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        self._rec(label, a)
        if a.shape != b.shape:
            self.fails.append((label, 'shape %s vs %s' % (a.shape, b.shape)))
            return
        if a.size == 0:
            return
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            self.fails.append((label, 'non-finite value'))
            return
        if tol is None:
            single = any(x.dtype in (np.float32, np.complex64) for x in (a, b))
            tol = 2e-3 if single else 2e-6
        err = float(np.max(np.abs(a - b)))
        scale = 1.0 + float(np.max(np.abs(b)))
        if err > tol * scale:
            k = np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape)
            self.fails.append((label, 'got %r expected %r at %s' % (
                a[k].item(), b[k].item(), tuple(int(q) for q in k))))

    def le(self, label, a, b, tol=2e-6):
        import numpy as np
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        self._rec(label, a)
        bad = ~(a <= b + tol * (1 + np.abs(b)))
        if np.any(bad):
            k = np.unravel_index(int(np.argmax(bad)), a.shape) if a.ndim else ()
            self.fails.append((label, 'not %r <= %r' % (a[k].item(), b[k].item())))

    def true(self, label, cond):
        import numpy as np
        if not bool(np.all(cond)):
            self.fails.append((label, 'condition false'))

    def implies(self, label, pre, cond):
        if bool(pre):
            self.true(label, cond)

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            return
        self.fails.append((label, 'no exception'))

    def branch(self, cond):
        return bool(cond)


def dtype_scalar(a, dtype):
    v = a[()]
    return float(v) if dtype == 'float64' else v


class SymCtx(Base):
    mode = 'sym'
    sym = True

    def __init__(self):
        from . import hook, val
        val.FLOATFN[0] = False
        self.np = hook.PROX['numpy']
        self.goals = []
        self.lhs = {}
        self.inputs = {}
        self.info = {}

    def mod(self, name):
        return importlib.import_module(name)

    def floatfn(self):
        """exp etc. at constants are replaced by rounded constants"""
        from . import val
        val.FLOATFN[0] = True

    def lib(self, name):
        from . import hook
        return hook.PROX[name]

    def real(self, name, shape=(), lo=None, hi=None, pos=False, nonneg=False,
             dtype='float64'):
        import numpy as np
        from . import core, val, arr
        shp = (shape,) if isinstance(shape, int) else tuple(shape)
        d = np.dtype(dtype)
        self.inputs[name] = (shp, lo, hi, pos, nonneg)
        out = np.empty(shp, dtype=object)
        k = 0
        for i in np.ndindex(shp):
            key = ('in', name, k)
            at = core.ST.keys.get(key)
            if at is None:
                at = core.ST.new('real', '%s[%d]' % (name, k))
                if pos or (lo is not None and lo > 0):
                    at.pos = at.nonneg = True
                if nonneg or (lo is not None and lo >= 0):
                    at.nonneg = True
                if pos:
                    at.defs.append(at.z > 0)
                elif nonneg:
                    at.defs.append(at.z >= 0)
                if lo is not None:
                    at.defs.append(at.z >= core.zq(core.snap(float(lo))))
                if hi is not None:
                    at.defs.append(at.z <= core.zq(core.snap(float(hi))))
                core.ST.keys[key] = at
                core.ST.inputs.append((at.id, name, k, lo, hi, pos, nonneg))
            out[i] = val.S(core.patom(at), core.ZERO, d)
            k += 1
        if shp == ():
            return out[()]
        return arr.wrap(out, d)

    def int(self, name, lo, hi):
        import z3
        from . import core
        v = self.real('int:' + name, (), lo=lo, hi=hi)
        at = core.ST.keys[('in', 'int:' + name, 0)]
        if ('isint', name) not in core.ST.keys:
            at.defs.append(z3.Or(*[at.z == k for k in range(lo, hi + 1)]))
            core.ST.keys[('isint', name)] = True
        return v

    def const(self, a, dtype='float64'):
        import numpy as np
        from . import arr
        return arr.as_sym(np.asarray(a, dtype=dtype))

    def scalar(self, v):
        from .val import as_S
        return as_S(float(v))

    def assume(self, cond):
        from . import val, arr
        if isinstance(cond, arr.SymArray):
            cond = arr.f_all(cond)
        r = val.asB(cond)
        if r is None:
            import numpy as np
            r = bool(np.all(cond))
        val.ENG.assume(r)

    def eq(self, label, a, b, tol=None):
        from . import arr, val, core
        import numpy as np
        a, b = arr.as_sym(a), arr.as_sym(b)
        self.lhs.setdefault(label, a)
        if a.shape != b.shape:
            self.goals.append((label, 'false', 'shape %s vs %s' % (a.shape, b.shape)))
            return
        for i in np.ndindex(a.shape):
            x, y = val.as_S(a.raw[i]), val.as_S(b.raw[i])
            self.goals.append((label, 'eq', (x, y, i)))

    def le(self, label, a, b, tol=None):
        from . import arr, val
        import numpy as np
        a, b = arr.as_sym(a), arr.as_sym(b)
        self.lhs.setdefault(label, a)
        x, y = np.broadcast_arrays(a.raw, b.raw)
        for i in np.ndindex(x.shape):
            self.goals.append((label, 'cond', val.asB(
                val.s_cmp(val.as_S(x[i]), val.as_S(y[i]), '<='))))

    def true(self, label, cond):
        from . import arr, val
        import numpy as np
        if isinstance(cond, arr.SymArray):
            cond = arr.f_all(cond)
        r = val.asB(cond)
        if r is None:
            r = bool(np.all(cond))
        self.goals.append((label, 'cond', r))

    def implies(self, label, pre, cond):
        from . import val
        p = val.asB(pre)
        if p is None:
            p = bool(pre)
        c = val.asB(cond)
        if c is None:
            c = bool(cond)
        self.goals.append((label, 'cond', val.bor(val.bnot(p), c)))

    def raises(self, label, fn, exc=Exception):
        from . import core
        try:
            fn()
        except core.Unsupported:
            raise
        except core.Budget:
            raise
        except exc:
            self.goals.append((label, 'cond', True))
            return
        self.goals.append((label, 'false', 'no exception'))

    def branch(self, cond):
        """Case split in the specification."""
        return bool(cond)


# ----------------------------------------------------------- concrete run

def run_concrete(case, values=None, seed=0, edge=False):
    """-> dict(status, fails, values, seen)"""
    import numpy as np
    c = ConcCtx(values, seed, edge)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                case.fn(c, **case.kw)
            except AssumeFail:
                return {'status': 'assume', 'values': c.values}
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inlib = any(f.filename.startswith(REPO) for f in tb)
                loc = [(os.path.relpath(f.filename, REPO), f.lineno, f.name)
                       for f in tb if f.filename.startswith(REPO)]
                return {'status': 'exception', 'inlib': inlib,
                        'fails': c.fails + [('exception', '%s: %s at %s' % (
                            type(e).__name__, str(e)[:300], loc[-1:] or tb[-1]))],
                        'values': c.values, 'seen': c.seen}
    return {'status': 'fail' if c.fails else 'ok', 'fails': c.fails,
            'values': c.values, 'seen': c.seen}


def replay_sub(prop, name, cands, timeout=120):
    """Replay candidate inputs in a fresh interpreter on the real library."""
    req = json.dumps({'prop': prop, 'case': name, 'cands': cands})
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'),
                            '--server'], input=req, capture_output=True,
                           text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None
    for line in p.stdout.splitlines()[::-1]:
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return None


# ----------------------------------------------------------- symbolic run

class Outcome:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.goals = 0
        self.queries = 0
        self.qtime = 0.0
        self.unknown = []       # undecided goals
        self.viol = []          # confirmed violations
        self.spurious = []      # candidates that did not reproduce
        self.error = None
        self.validated = 0
        self.mismatch = []
        self.funcs = []
        self.stubs = {}
        self.atoms = 0
        self.wall = 0.0
        self.norm = 0


def sample_env(rng, edge):
    from . import core
    vals = {}
    bykey = {}
    for (i, name, k, lo, hi, pos, nonneg) in core.ST.inputs:
        l = lo if lo is not None else (0.25 if pos else (0.0 if nonneg else -2.0))
        h = hi if hi is not None else max(2.0, l + 2.0)
        x = round(rng.uniform(l, h) * 64) / 64
        if edge and rng.random() < 0.4:
            x = rng.choice([0.0, 1.0, -1.0, 0.5, l, h])
        x = min(max(x, l), h)
        if name.startswith('int:'):
            x = float(round(x))
        if pos and x <= 0:
            x = 0.25
        vals[i] = x
        bykey.setdefault(name, {})[k] = x
    return vals, {n: [d[k] for k in sorted(d)] for n, d in bykey.items()}


def model_values(m):
    from . import core
    out = {}
    for (i, name, k, lo, hi, pos, nonneg) in core.ST.inputs:
        v = m.eval(core.ST.atoms[i].z, model_completion=True)
        import z3
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            x = float(v.numerator_as_long()) / float(v.denominator_as_long())
        except Exception:
            x = 0.0
        # inputs the query does not mention are unconstrained in the model
        if lo is not None:
            x = max(x, float(lo))
        if hi is not None:
            x = min(x, float(hi))
        if pos and x <= 0:
            x = 0.25
        if nonneg and x < 0:
            x = 0.0
        out.setdefault(name, {})[k] = x
    return {n: [d[k] for k in sorted(d)] for n, d in out.items()}


def goal_exprs(goal):
    """-> (list of polys that must vanish, list of raw bool conditions)"""
    from . import val, core
    label, kind, data = goal
    if kind == 'eq':
        x, y, i = data
        ps = []
        for p, q in ((x.re, y.re), (x.im, y.im)):
            ps.append(core.psub(p, q))
        conds = []
        for s in (x, y):
            if s.sp is not None:
                conds.append(val.bnot(val.anybad(s.sp)))
        return ps, conds
    return [], [data]


def normalise(p):
    from . import core
    if not p.t:
        return p
    try:
        if any(core.ST.atoms[x].recip is not None for x in core.pvars(p)):
            q = core.reduce_recip(p)
            if q.t:
                r = core.clear_recip(q)
                if r is not None:
                    q = r
            return q
    except core.Unsupported:
        pass
    return p


def solver_check(cons, path, timeout, tactic=None, margin=None):
    """Full query with definitions -> (result, model)."""
    import z3
    from . import core, val
    E = val.ENG
    E.budget()
    if E.deadline is not None:
        timeout = int(max(300, min(timeout, (E.deadline - time.time()) * 1000)))
    cs = list(path) + list(cons)
    ids = set()
    for c in cs:
        ids |= core.zvars(c)
    defs, seen = core.closure_defs(ids)
    s = z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set('timeout', timeout)
    s.add(*cs)
    if defs:
        s.add(*defs)
    if margin:
        for (i, name, k, lo, hi, pos, nonneg) in core.ST.inputs:
            if i in seen:
                z = core.ST.atoms[i].z
                s.add(z <= 8, z >= -8)
                if pos:
                    s.add(z >= z3.RealVal('1/8'))
    t = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    E.queries += 1
    E.qtime += time.time() - t
    return r, (s.model() if r == 'sat' else None)


def explore(prop, case, limit, seed=0, replay=True):
    """Run every path of a case and discharge all goals."""
    import z3
    from . import core, val, arr, hook, stubs
    o = Outcome()
    t0 = time.time()
    E = val.ENG
    core.reset_store()
    E.reset_all()
    E.deadline = t0 + limit
    E.active = True
    stubs.USED.clear()
    stack = [[]]
    covered_seeds = {}
    rng = random.Random(zlib.crc32(case.name.encode()) + seed)
    try:
        while stack:
            if o.paths >= case.paths:
                o.cut += len(stack)
                o.unknown.append(('paths', 'path limit reached, %d open' % len(stack)))
                break
            prefix = stack.pop()
            E.start_path(prefix)
            c = SymCtx()
            err = None
            infeasible = False
            try:
                case.fn(c, **case.kw)
            except core.PathAbort:
                infeasible = True
            except (core.Unsupported, core.Budget):
                raise
            except AssumeFail:
                infeasible = True
            except Exception as e:
                err = e
            for k in range(len(prefix), len(E.trace)):
                if E.trace[k][1]:
                    stack.append([x[0] for x in E.trace[:k]] + [not E.trace[k][0]])
            if infeasible:
                continue
            path = list(E.path)
            o.paths += 1
            if err is not None:
                handle_exception(o, prop, case, c, path, err, rng, replay)
                if o.viol:
                    break
                continue
            discharge(o, prop, case, c, path, rng, replay)
            if o.viol:
                break
    except core.Unsupported as e:
        o.error = 'unsupported: %s' % e
        o.error_tb = [(os.path.basename(f.filename), f.lineno, f.name)
                      for f in traceback.extract_tb(e.__traceback__)][-7:]
    except core.Budget as e:
        o.error = 'budget: %s' % e
    except RecursionError as e:
        o.error = 'unsupported: recursion'
    o.queries = E.queries
    o.qtime = E.qtime
    o.stubs = dict(stubs.USED)
    o.atoms = len(core.ST.atoms)
    o.wall = time.time() - t0
    return o


def handle_exception(o, prop, case, c, path, err, rng, replay):
    """The library raised on this path: real if it also raises concretely."""
    tb = traceback.extract_tb(err.__traceback__)
    where = [(os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO)
              else os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
    desc = '%s: %s' % (type(err).__name__, str(err)[:200])
    cands = candidates([], path, rng)
    r = replay_sub(prop, case.name, cands) if (replay and cands) else None
    if r:
        for k, x in enumerate(r):
            if x['status'] in ('exception', 'fail'):
                o.viol.append({'label': 'exception', 'desc': x['fails'][-1][1],
                               'values': x['values'], 'sym': desc})
                return
    o.unknown.append(('exception', desc + ' @ %s' % (where,)))
    o.exc_tb = where


def holds_float(env, path, conds_false):
    from . import core
    for p in path:
        if not env.bool(p):
            return False
    return True


def candidates(neg, path, rng, n=60, want=4):
    """Candidate inputs satisfying path and the negated goal `neg`.

    neg: list of alternatives ('poly', p) / ('cond', z)"""
    from . import core
    out = []
    if neg:
        zs = []
        for k, x in neg:
            if k == 'poly':
                z = core.to_z3(x)
                zs.append((z > core.zq(core.Fraction(1, 10)), z < core.zq(core.Fraction(-1, 10))))
            else:
                zs.append((bz(core.bnot(x)),))
        import z3
        for margin in (True, False):
            alts = [a for t in zs for a in t]
            if not margin:
                alts = [core.to_z3(x) != 0 if k == 'poly' else bz(core.bnot(x)) for k, x in neg]
            try:
                r, m = solver_check([z3.Or(*alts)], path, 6000, margin=margin)
            except core.Budget:
                break
            if r == 'sat':
                out.append(model_values(m))
                break
    else:
        try:
            r, m = solver_check([], path, 6000, margin=True)
            if r == 'sat':
                out.append(model_values(m))
        except core.Budget:
            pass
    for t in range(n):
        if len(out) >= want:
            break
        vals, named = sample_env(rng, t % 2 == 1)
        env = core.Env(vals)
        try:
            if not holds_float(env, path, None):
                continue
            if neg:
                hit = False
                for k, x in neg:
                    if k == 'poly':
                        if abs(env.poly(x)) > 1e-4:
                            hit = True
                            break
                    elif not env.rng(x)[1]:
                        hit = True
                        break
                if not hit:
                    continue
            out.append(named)
        except (core.Unsupported, OverflowError, ZeroDivisionError, ValueError):
            break
    return out


def bz(x):
    import z3
    if x is True or x is False:
        return z3.BoolVal(x)
    return x


def discharge(o, prop, case, c, path, rng, replay):
    import z3
    from . import core, val
    groups = {}
    for g in c.goals:
        groups.setdefault(g[0], []).append(g)
    for label, gs in groups.items():
        o.goals += len(gs)
        hard = [g for g in gs if g[1] == 'false']
        if hard:
            r = None
            cands = candidates([], path, rng)
            if replay and cands:
                r = replay_sub(prop, case.name, cands)
            if r and confirm(o, label, r, hard[0][2]):
                return
            if r is None and not cands:
                o.unknown.append((label, 'no model of path: ' + hard[0][2]))
            else:
                o.spurious.append((label, hard[0][2]))
            continue
        polys, conds = [], []
        raws = []
        for g in gs:
            ps, cs = goal_exprs(g)
            for p in ps:
                if p.t:
                    raws.append(p)
                    polys.append(p)
            conds.extend(x for x in cs if x is not True)
        if any(x is False for x in conds):
            neg = [('cond', False)]
            if not refute(o, prop, case, label, neg, path, rng, replay):
                continue
            return
        # quick refutation by evaluation before normalisation
        if polys or conds:
            neg = [('poly', p) for p in raws[:200]] + [('cond', x) for x in conds]
            cand = quick_ce(neg, path, rng)
            if cand:
                r = replay_sub(prop, case.name, cand) if replay else None
                if r and confirm(o, label, r, 'refuted'):
                    return
        nps = []
        t1 = time.time()
        for p in polys:
            q = normalise(p)
            nps.append(q)
        o.norm += sum(1 for q in nps if not q.t) + (len(gs) - len(polys) > 0)
        alts = [core.to_z3(q) != 0 for q in nps if q.t] + \
               [z3.Not(x) for x in conds]
        # one batch query (also when normalisation already closed everything)
        batch = z3.Or(*alts) if alts else z3.BoolVal(False)
        r, m = solver_check([batch], path, 8000)
        if r == 'unsat':
            continue
        if r == 'unknown':
            und = []
            sat = None
            for q in [q for q in nps if q.t]:
                r1 = prove(core.to_z3(q) != 0, path)
                if r1 == 'sat':
                    sat = ('poly', q)
                    break
                if r1 == 'unknown':
                    und.append(q)
            if sat is None:
                for x in conds:
                    r1 = prove(z3.Not(x), path)
                    if r1 == 'sat':
                        sat = ('cond', x)
                        break
                    if r1 == 'unknown':
                        und.append(x)
            if sat is None:
                if und:
                    o.unknown.append((label, '%d of %d goals undecided' % (
                        len(und), len(gs))))
                continue
        neg = [('poly', p) for p in raws[:200]] + [('cond', x) for x in conds]
        if refute(o, prop, case, label, neg, path, rng, replay):
            return
    # translation validation on inputs that follow this path
    validate(o, prop, case, c, path, rng)


def prove(z, path):
    r, m = solver_check([z], path, 6000)
    if r == 'unknown':
        r, m = solver_check([z], path, 12000, tactic='QF_NRA')
    return r


def quick_ce(neg, path, rng, n=24):
    from . import core
    out = []
    for t in range(n):
        vals, named = sample_env(rng, t % 3 == 2)
        env = core.Env(vals)
        try:
            if not holds_float(env, path, None):
                continue
            for k, x in neg:
                if k == 'poly':
                    v = env.poly(x)
                    if abs(v) > 1e-4 and math.isfinite(v):
                        out.append(named)
                        break
                elif not env.rng(x)[1]:
                    out.append(named)
                    break
        except (core.Unsupported, OverflowError, ZeroDivisionError, ValueError):
            return out
        if len(out) >= 3:
            break
    return out


def refute(o, prop, case, label, neg, path, rng, replay):
    cands = candidates(neg, path, rng)
    r = replay_sub(prop, case.name, cands) if (replay and cands) else None
    if r and confirm(o, label, r, 'refuted'):
        return True
    o.spurious.append((label, 'solver model did not reproduce on the real code'
                       if cands else 'sat without model'))
    return False


def confirm(o, label, results, desc):
    for x in results:
        if x['status'] in ('fail', 'exception'):
            labs = [f for f in x['fails'] if f[0] == label] or x['fails']
            o.viol.append({'label': labs[0][0], 'desc': labs[0][1],
                           'values': x['values'], 'sym': desc})
            return True
    return False


def validate(o, prop, case, c, path, rng):
    """Compare the encoding with recorded runs of the real code."""
    from . import core, arr, val
    import numpy as np
    for w in getattr(case, 'witness', ()):
        try:
            vals = {}
            for (i, name, k, lo, hi, pos, nonneg) in core.ST.inputs:
                vals[i] = w['values'][name][k]
            env = core.Env(vals)
            if not holds_float(env, path, None):
                continue
            for label, a in c.lhs.items():
                ref = w['seen'].get(label)
                if ref is None or len(ref) != a.size:
                    continue
                for x, (re, im) in zip(a.raw.ravel(), ref):
                    x = val.as_S(x)
                    if x.sp is not None and env.bool(val.anybad(x.sp)):
                        if math.isfinite(re) and math.isfinite(im):
                            o.mismatch.append((label, 'encoding non-finite'))
                        break
                    v, u = env.poly(x.re), env.poly(x.im)
                    if not (abs(v - re) <= 1e-3 * (1 + abs(re)) and
                            abs(u - im) <= 1e-3 * (1 + abs(im))):
                        o.mismatch.append((label, 'encoding %g%+gj real %g%+gj' % (
                            v, u, re, im)))
                        break
                else:
                    o.validated += 1
        except (core.Unsupported, KeyError, IndexError, OverflowError,
                ZeroDivisionError, ValueError):
            continue
