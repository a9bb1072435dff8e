"""P17: solver options behave as a checked tree of defaults."""
import copy
import pickle
from sx.run import Registry
reg = Registry()
MODULES = ['sporco.cdict']
BOUNDS = ('option trees of depth 3 with 5 leaves for the generic class, every subset of keys and every position of an invalid '
          'key or value, up to two successive updates; every leaf and node of every Options class of the library, with '
          'arbitrary leaf values; all method combinations of the dictionary learning classes')

LEAVES = [('A',), ('B', 'C'), ('B', 'D', 'E'), ('B', 'D', 'F'), ('G', 'H')]
NODES = [(), ('B',), ('B', 'D'), ('G',)]


def nest(items, base=None):
    """nested dict from (path, value) pairs"""
    d = {} if base is None else base
    for p, v in items:
        e = d
        for k in p[:-1]:
            e = e.setdefault(k, {})
        e[p[-1]] = v
    return d


def get(d, p):
    for k in p:
        d = dict.__getitem__(d, k)
    return d


def leaves(d, p=()):
    out = []
    for k in d.keys():
        v = dict.__getitem__(d, k)
        if isinstance(v, dict):
            out += leaves(v, p + (k,))
        else:
            out.append((p + (k,), v))
    return out


def nodes(d, p=()):
    out = [p]
    for k in d.keys():
        v = dict.__getitem__(d, k)
        if isinstance(v, dict):
            out += nodes(v, p + (k,))
    return out


def same(c, label, d, items):
    """the leaves of d are exactly items"""
    have = dict(leaves(d))
    c.true(label + ': keys', set(have) == {p for p, v in items})
    for p, v in items:
        if p in have:
            ident(c, label, have[p], v)


def ident(c, label, a, b):
    if a is b:
        c.true(label, True)
        return
    if isinstance(b, bool) or b is None or isinstance(b, str) or callable(b):
        c.true(label, a is b or a == b)
    elif isinstance(b, (int, float)) or hasattr(b, 'dtype'):
        c.eq(label, a, b)
    else:
        c.true(label, alike(a, b))


def alike(a, b):
    """same setting (objects such as step size policies may be copies)"""
    if a is b:
        return True
    if type(a) is not type(b) or hasattr(a, 'shape'):
        return False
    return a == b or not isinstance(a, (bool, int, float, str, tuple, list))


def mk(c, tag='d'):
    cd = c.mod('sporco.cdict')
    dv = [c.real('%s%d' % (tag, i)) for i in range(len(LEAVES))]

    class Opt(cd.ConstrainedDict):
        defaults = nest(zip(LEAVES, dv))
    return cd, Opt, dv


def subset(c, tag):
    return [i for i in range(len(LEAVES)) if c.branch(c.int('%s%d' % (tag, i), 0, 1) == 1)]


@reg.case('merge', [dict(mode=m) for m in ('init', 'update', 'items', 'paths', 'nodes')], paths=80)
def merge(c, mode):
    """given values replace the defaults, everything else is kept"""
    cd, Opt, dv = mk(c)
    sel = subset(c, 'p')
    uv = {i: c.real('u%d' % i) for i in sel}
    user = nest([(LEAVES[i], uv[i]) for i in sel])
    if c.branch(c.int('empty', 0, 1) == 1):
        for p in NODES[1:]:
            e = user
            for k in p:
                e = e.setdefault(k, {})
    before = leaves(user)
    if mode == 'init':
        o = Opt(user)
    else:
        o = Opt()
        if mode == 'update':
            o.update(user)
        elif mode == 'items':
            for k in user:
                o[k] = user[k]
        elif mode == 'paths':
            for i in sel:
                o[LEAVES[i]] = uv[i]
        else:
            for i in sel:
                e = o
                for k in LEAVES[i][:-1]:
                    e = e[k]
                e[LEAVES[i][-1]] = uv[i]
    want = [(p, uv.get(i, dv[i])) for i, p in enumerate(LEAVES)]
    same(c, 'content', o, want)
    for p, v in want:
        ident(c, 'path access', o[p], v)
        e = o
        for k in p:
            e = e[k]
        ident(c, 'nested access', e, v)
    same(c, 'defaults', Opt.defaults, list(zip(LEAVES, dv)))
    same(c, 'argument', user, before)
    same(c, 'fresh instance', Opt(), list(zip(LEAVES, dv)))


@reg.case('twice', [dict(m1=a, m2=b) for a in ('init', 'update') for b in ('update', 'paths')], paths=300, limit=120)
def twice(c, m1, m2):
    """the last assignment of every leaf is the one in effect"""
    cd, Opt, dv = mk(c)
    s1 = [0, 2, 4] if c.branch(c.int('q', 0, 1) == 1) else [1, 2, 3]
    s2 = subset(c, 'p')
    v1 = {i: c.real('u%d' % i) for i in s1}
    v2 = {i: c.real('w%d' % i) for i in s2}
    d1 = nest([(LEAVES[i], v1[i]) for i in s1])
    d2 = nest([(LEAVES[i], v2[i]) for i in s2])
    if m1 == 'init':
        o = Opt(d1)
    else:
        o = Opt()
        o.update(d1)
    if m2 == 'update':
        o.update(d2)
    else:
        for i in s2:
            o[LEAVES[i]] = v2[i]
    same(c, 'content', o, [(p, v2.get(i, v1.get(i, dv[i]))) for i, p in enumerate(LEAVES)])
    same(c, 'argument 1', d1, [(LEAVES[i], v1[i]) for i in s1])
    same(c, 'argument 2', d2, [(LEAVES[i], v2[i]) for i in s2])


def caught(c, label, fn, exc, path):
    try:
        fn()
    except exc as e:
        a = e.args[0]
        c.true(label + ': reported key', (tuple(a) if isinstance(a, (list, tuple)) else (a,)) == path)
        c.true(label + ': message', all(str(k) in str(e) for k in path))
        return
    c.true(label + ': rejected', False)


@reg.case('invalid', [dict(mode=m, kind=k) for m in ('init', 'update', 'item', 'path', 'read') for k in ('key', 'value')
                      if (m, k) != ('read', 'value')])
def invalid(c, mode, kind):
    """unknown keys and values in place of subtrees are rejected at any depth"""
    cd, Opt, dv = mk(c)
    v = c.real('v')
    n = c.int('n', 0, len(NODES) - 1)
    for k, node in enumerate(NODES):
        if c.branch(n == k):
            break
    if kind == 'key':
        path, exc = node + ('Z',), cd.UnknownKeyError
    elif node == ():
        return
    else:
        path, exc = node, cd.InvalidValueError
    bad = nest([(path, v)])
    o = Opt()
    if mode == 'init':
        caught(c, 'init', lambda: Opt(bad), exc, path)
    elif mode == 'update':
        caught(c, 'update', lambda: o.update(bad), exc, path)
    elif mode == 'item':
        e = o
        for q in path[:-1]:
            e = e[q]

        def f():
            e[path[-1]] = v
        caught(c, 'item', f, exc, path)
    elif mode == 'path':
        def f():
            o[path] = v
        caught(c, 'path', f, exc, path)
    else:
        c.raises('read path', lambda: o[path], cd.UnknownKeyError)
        e = o
        for q in path[:-1]:
            e = e[q]
        c.raises('read item', lambda: e[path[-1]], cd.UnknownKeyError)
        c.raises('read below unknown', lambda: o[node + ('Z', 'Y')], cd.UnknownKeyError)
    same(c, 'content kept', o, list(zip(LEAVES, dv)))
    same(c, 'defaults kept', Opt.defaults, list(zip(LEAVES, dv)))
    c.raises('is a KeyError or ValueError', lambda: Opt(bad), KeyError if kind == 'key' else ValueError)


@reg.case('independent', [dict(how=h) for h in ('two', 'copy', 'deepcopy', 'pickle', 'nodecopy')])
def independent(c, how):
    """instances do not share subtrees with each other or with the defaults"""
    cd, Opt, dv = mk(c)
    k = c.int('k', 0, len(LEAVES) - 1)
    for i, p in enumerate(LEAVES):
        if c.branch(k == i):
            break
    a = Opt({'B': {'C': 0.5}})
    base = [(q, 0.5 if q == ('B', 'C') else v) for q, v in zip(LEAVES, dv)]
    if how == 'two':
        b = Opt({'B': {'C': 0.5}})
    elif how == 'copy':
        b = Opt(nest(leaves(a)))
    elif how == 'deepcopy':
        b = copy.deepcopy(a)
    elif how == 'nodecopy':
        b = Opt()
        b.update({'B': {'C': 0.5}})
        del b
        b = Opt()
        b['B', 'C'] = 0.5
    else:
        return
    same(c, 'second instance', b, base)
    v = c.real('v')
    a[p] = v
    same(c, 'first changed', a, [(q, v if q == p else w) for q, w in base])
    same(c, 'second kept', b, base)
    same(c, 'defaults kept', Opt.defaults, list(zip(LEAVES, dv)))
    c.raises('still checked', lambda: b.update({'B': {'D': {'Z': 1}}}), cd.UnknownKeyError)
    w = c.real('w')
    b[p] = w
    same(c, 'first kept', a, [(q, v if q == p else x) for q, x in base])


@reg.case('inherit', [dict()])
def inherit(c):
    """derived classes extend a copy of the defaults"""
    cd, Opt, dv = mk(c)
    x, v = c.real('x'), c.real('v')

    class Sub(Opt):
        defaults = copy.deepcopy(Opt.defaults)
        defaults.update({'X': x, 'A': 0.25})
    o = Sub({'X': v, 'G': {'H': v}})
    same(c, 'derived', o, [(('A',), 0.25), (('B', 'C'), dv[1]), (('B', 'D', 'E'), dv[2]), (('B', 'D', 'F'), dv[3]), (('G', 'H'), v), (('X',), v)])
    same(c, 'base', Opt(), list(zip(LEAVES, dv)))
    c.raises('base rejects', lambda: Opt({'X': 1.0}), cd.UnknownKeyError)
    # a derived tree in place of a subtree
    y = Opt()

    class Sub2(cd.ConstrainedDict):
        defaults = {'T': copy.deepcopy(Opt.defaults), 'N': x}

        def __init__(self, opt=None):
            cd.ConstrainedDict.__init__(self, {'T': Opt({'A': 0.75})})
            self.update(opt or {})
    s = Sub2({'T': {'B': {'D': {'F': v}}}})
    w = [0.75, dv[1], dv[2], v, dv[4]]
    same(c, 'composite', s, [(('T',) + p, q) for p, q in zip(LEAVES, w)] + [(('N',), x)])
    c.raises('composite rejects', lambda: Sub2({'T': {'B': {'D': {'Z': v}}}}), cd.UnknownKeyError)
    c.raises('composite rejects value', lambda: Sub2({'T': {'B': v}}), cd.InvalidValueError)
    same(c, 'unrelated', y, list(zip(LEAVES, dv)))


@reg.case('keycmp', [dict(kind=k) for k in ('sub', 'key', 'value')], paths=80)
def keycmp(c, kind):
    """key comparison accepts exactly the trees with known keys"""
    cd, Opt, dv = mk(c)
    a = nest(zip(LEAVES, dv))
    if kind == 'sub':
        sel = subset(c, 'p')
        b = nest([(LEAVES[i], 1.0) for i in sel])
        cd.keycmp(a, b)
        c.true('accepted', True)
        return
    n = c.int('n', 0, len(NODES) - 1)
    for k, node in enumerate(NODES):
        if c.branch(n == k):
            break
    if kind == 'key':
        b = nest([(node + ('Z',), 1.0)], nest(zip(LEAVES, dv)))
        caught(c, 'unknown', lambda: cd.keycmp(a, b), cd.UnknownKeyError, node + ('Z',))
    elif node:
        caught(c, 'value', lambda: cd.keycmp(a, nest([(node, 1.0)])), cd.InvalidValueError, node)


ALL = [('sporco.admm.admm', ('ADMM', 'ADMMEqual', 'ADMMTwoBlockCnstrnt', 'ADMMConsensus')),
       ('sporco.admm.bpdn', ('GenericBPDN', 'BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1', 'MinL1InL2Ball')),
       ('sporco.admm.cbpdn', ('GenericConvBPDN', 'ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet', 'ConvBPDNGradReg', 'ConvBPDNProjL1',
                              'ConvTwoBlockCnstrnt', 'ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')),
       ('sporco.admm.cbpdnin', ('ConvBPDNInhib',)), ('sporco.admm.cbpdntv', ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV')),
       ('sporco.admm.pdcsc', ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint')),
       ('sporco.admm.ccmod', ('ConvCnstrMODBase', 'ConvCnstrMOD_IterSM', 'ConvCnstrMOD_CG', 'ConvCnstrMOD_Consensus')),
       ('sporco.admm.ccmodmd', ('ConvCnstrMODMaskDcplBase', 'ConvCnstrMODMaskDcpl_IterSM', 'ConvCnstrMODMaskDcpl_CG',
                                'ConvCnstrMODMaskDcpl_Consensus')),
       ('sporco.admm.cmod', ('CnstrMOD',)), ('sporco.admm.parcbpdn', ('ParConvBPDN',)),
       ('sporco.admm.rpca', ('RobustPCA',)), ('sporco.admm.spline', ('SplineL1',)), ('sporco.admm.tvl1', ('TVL1Denoise', 'TVL1Deconv')),
       ('sporco.admm.tvl2', ('TVL2Denoise', 'TVL2Deconv')), ('sporco.admm.ppp', ('PPP',)),
       ('sporco.dictlrn.dictlrn', ('DictLearn',)), ('sporco.dictlrn.bpdndl', ('BPDNDictLearn',)),
       ('sporco.dictlrn.wbpdndl', ('WeightedBPDNDictLearn',)), ('sporco.dictlrn.cbpdndl', ('ConvBPDNDictLearn',)),
       ('sporco.dictlrn.cbpdndlmd', ('ConvBPDNMaskDictLearn',)), ('sporco.dictlrn.onlinecdl', ('OnlineConvBPDNDictLearn', 'OnlineConvBPDNMaskDictLearn')),
       ('sporco.dictlrn.prlcnscdl', ('ConvBPDNDictLearn_Consensus', 'ConvBPDNMaskDcplDictLearn_Consensus')),
       ('sporco.pgm.pgm', ('PGM', 'PGMDFT')), ('sporco.pgm.bpdn', ('BPDN', 'WeightedBPDN')), ('sporco.pgm.cbpdn', ('ConvBPDN', 'ConvBPDNMask')),
       ('sporco.pgm.cmod', ('CnstrMOD', 'WeightedCnstrMOD')), ('sporco.pgm.ccmod', ('ConvCnstrMOD', 'ConvCnstrMODMask')),
       ('sporco.pgm.ppp', ('PPP',))]
LEARN = ('ConvBPDNDictLearn', 'ConvBPDNMaskDictLearn', 'ConvBPDNDictLearn_Consensus', 'ConvBPDNMaskDcplDictLearn_Consensus')


def chain(C_):
    """defaults of the class and its base classes"""
    return [k.__dict__['defaults'] for k in C_.__mro__ if 'defaults' in k.__dict__]


def snap(d):
    return {k: snap(v) if isinstance(v, dict) else v for k, v in d.items()}


def eqtree(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(eqtree(dict.__getitem__(a, k), dict.__getitem__(b, k)) for k in a)
    return a is b or type(a) is type(b)


@reg.case('solver', [dict(mod=m, cls=k) for m, ks in ALL for k in ks], limit=120)
def solver(c, mod, cls):
    """every option of every solver is accepted, takes effect and affects nothing else"""
    cd = c.mod('sporco.cdict')
    C_ = getattr(c.mod(mod), cls).Options
    base = C_()
    b0 = leaves(base)
    c.true('has options', len(b0) > 0)
    saved = [snap(d) for d in chain(C_)]
    v = c.real('v')
    for p, d in b0:
        vals = (True, False) if p[-1] == 'AuxVarObj' else (v,)
        for val in vals:
            side = {}
            if p[-1] == 'AuxVarObj':
                side = {p[:-1] + ('fEvalX',): not val, p[:-1] + ('gEvalY',): val}
                two = isinstance(base[p[:-1]] if len(p) > 1 else base, c.mod('sporco.admm.admm').ADMMTwoBlockCnstrnt.Options)
            for how in (0, 1):
                if how == 0:
                    o = C_(nest([(p, val)]))
                else:
                    o = C_()
                    o.update(nest([(p, val)]))
                h = dict(leaves(o))
                c.true('keys', set(h) == {q for q, w in b0})
                ident(c, 'set', h[p], val)
                ident(c, 'read', o[p], val)
                for q, w in b0:
                    if q == p:
                        continue
                    if q in side and two:
                        continue        # not used by two-block solvers
                    c.true('others kept', alike(h[q], side.get(q, w)))
    for p in nodes(base):
        c.raises('unknown key', lambda: C_(nest([(p + ('NoSuchKey',), v)])), cd.UnknownKeyError)
        o = C_()

        def f():
            o[p + ('NoSuchKey',)] = v
        c.raises('unknown key by path', f, cd.UnknownKeyError)
        c.true('not inserted', set(dict(leaves(o))) == {q for q, w in b0})
        if p:
            c.raises('value for subtree', lambda: C_(nest([(p, v)])), cd.InvalidValueError)
        # subtrees are not shared
        x, y = C_(), C_()
        if p:
            c.true('own subtree', get(x, p) is not get(y, p) and not any(
                get(x, p) is (d if not p else None) for d in chain(C_)))
            for d in chain(C_):
                e = d
                for k in p:
                    e = e.get(k) if isinstance(e, dict) else None
                c.true('subtree is not the default', e is None or get(x, p) is not e)
    if cls not in LEARN:
        for d, s in zip(chain(C_), saved):
            c.true('class defaults', eqtree(d, s))
    else:
        for d, s in zip(chain(C_)[1:] if cls in LEARN[:2] else chain(C_)[2:], saved[1:] if cls in LEARN[:2] else saved[2:]):
            c.true('base class defaults', eqtree(d, s))
    same(c, 'fresh', C_(), b0)
    same(c, 'first instance', base, b0)
    # instances can be serialised
    num = [p for p, d in b0 if isinstance(d, float)]
    o = C_()
    if num:
        o[num[-1]] = 0.375
    for r in (copy.deepcopy(o), pickle.loads(pickle.dumps(o))):
        c.true('type kept', type(r) is type(o))
        h = dict(leaves(r))
        c.true('copied keys', set(h) == {q for q, w in b0})
        for q, w in leaves(o):
            c.true('copied values', alike(h[q], w) or type(h[q]) is type(w))
        c.raises('copies are checked', lambda: r.update({'NoSuchKey': 1}), cd.UnknownKeyError)
        for p in nodes(base)[1:]:
            def f():
                r[p + ('NoSuchKey',)] = 1
            c.raises('copied subtrees are checked', f, cd.UnknownKeyError)
        if num:
            r[num[-1]] = 0.625
            c.true('copies are independent', o[num[-1]] == 0.375)


@reg.case('classes', [dict()], limit=120)
def classes(c):
    """defining or using one solver does not alter the options of another"""
    import sys
    names = [k for k in sys.modules if k == 'sporco' or k.startswith('sporco.')]
    saved = {k: sys.modules.pop(k) for k in names}
    try:
        cd = c.mod('sporco.cdict')
        made = []

        def record(cls, **kw):
            if 'defaults' in cls.__dict__:
                made.append((cls, snap(cls.defaults)))
        cd.ConstrainedDict.__init_subclass__ = classmethod(record)
        learn, rest = [], []
        for m, ks in ALL:
            for k in ks:
                O_ = getattr(c.mod(m), k).Options
                (learn if 'dictlrn' in m else rest).append(O_)
        c.true('classes found', len(made) > 30)
        v = c.real('v')

        def check(label):
            for cls, s in made:
                if cls not in learn:
                    c.true(label, eqtree(cls.defaults, s) and all(
                        alike(x[1], y[1]) for x, y in zip(sorted(leaves(cls.defaults), key=lambda t: t[0]), sorted(leaves(s), key=lambda t: t[0]))))
        check('defaults as defined')
        for O_ in rest + learn:
            o = O_()
            for p, d in leaves(o):
                o[p] = v
        check('defaults after use')
    finally:
        for k in [k for k in sys.modules if k == 'sporco' or k.startswith('sporco.')]:
            del sys.modules[k]
        sys.modules.update(saved)


METH = {'ConvBPDNDictLearn': ('sporco.dictlrn.cbpdndl', {'admm': ('sporco.admm.cbpdn', 'ConvBPDN'), 'pgm': ('sporco.pgm.cbpdn', 'ConvBPDN')},
                              {'ism': ('sporco.admm.ccmod', 'ConvCnstrMOD_IterSM'), 'cg': ('sporco.admm.ccmod', 'ConvCnstrMOD_CG'),
                               'cns': ('sporco.admm.ccmod', 'ConvCnstrMOD_Consensus'), 'pgm': ('sporco.pgm.ccmod', 'ConvCnstrMOD')}),
        'ConvBPDNMaskDictLearn': ('sporco.dictlrn.cbpdndlmd', {'admm': ('sporco.admm.cbpdn', 'ConvBPDNMaskDcpl'),
                                                               'pgm': ('sporco.pgm.cbpdn', 'ConvBPDNMask')},
                                  {'ism': ('sporco.admm.ccmodmd', 'ConvCnstrMODMaskDcpl_IterSM'), 'cg': ('sporco.admm.ccmodmd', 'ConvCnstrMODMaskDcpl_CG'),
                                   'cns': ('sporco.admm.ccmodmd', 'ConvCnstrMODMaskDcpl_Consensus'), 'pgm': ('sporco.pgm.ccmod', 'ConvCnstrMODMask')})}


@reg.case('methods', [dict(cls=k, x=x, d=d) for k in METH for x in ('admm', 'pgm') for d in ('ism', 'cg', 'cns', 'pgm')])
def methods(c, cls, x, d):
    """options of the learning classes are those of the selected methods, also after others were used"""
    cd = c.mod('sporco.cdict')
    mod, XM, DM = METH[cls]
    C_ = getattr(c.mod(mod), cls).Options

    def build(*a):
        return C_(*a, xmethod=x, dmethod=d)
    solvers = [getattr(c.mod(m), k).Options for m, k in list(XM.values()) + list(DM.values())]
    sb = [leaves(S_()) for S_ in solvers]
    o = build()
    o0 = leaves(o)
    for S_, b in zip(solvers, sb):
        same(c, 'options of the solver itself', S_(), b)
    c.true('methods', o.xmethod == x and o.dmethod == d)
    for key, (m, k) in (('CBPDN', XM[x]), ('CCMOD', DM[d])):
        S_ = getattr(c.mod(m), k).Options
        c.true('options of the method', set(dict(leaves(o[key]))) == set(dict(leaves(S_()))))
        c.true('type', isinstance(o[key], S_))
    for x2 in XM:
        for d2 in DM:
            p = C_(xmethod=x2, dmethod=d2)
            p['CBPDN', 'MaxMainIter'] = 77
            p['CCMOD', 'MaxMainIter'] = 78
    same(c, 'kept', o, o0)
    same(c, 'fresh', build(), o0)
    v, w = c.real('v'), c.real('w')
    q = build({'CBPDN': {'MaxMainIter': v}, 'CCMOD': {'RelStopTol': w}})
    same(c, 'overridden', q, [(p, v if p == ('CBPDN', 'MaxMainIter') else w if p == ('CCMOD', 'RelStopTol') else u) for p, u in o0])
    c.raises('unknown x option', lambda: build({'CBPDN': {'NoSuchKey': 1}}), cd.UnknownKeyError)
    c.raises('unknown d option', lambda: build({'CCMOD': {'NoSuchKey': 1}}), cd.UnknownKeyError)
    c.raises('unknown option', lambda: build({'NoSuchKey': 1}), cd.UnknownKeyError)
    # after another method was selected, the old instance still follows its own
    C_(xmethod='pgm' if x == 'admm' else 'admm', dmethod='cg' if d != 'cg' else 'pgm')
    own = [k for k in o['CBPDN'] if not isinstance(o['CBPDN'][k], dict)]
    o['CBPDN'].update({own[0]: v})
    ident(c, 'own option', o['CBPDN', own[0]], v)
