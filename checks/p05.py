"""P05: dimension inference for convolutional problems, padding/cropping and
the dictionary constraint set."""
from sx.run import Registry
from sx import spec
reg = Registry()
MODULES = ['sporco.cnvrep', 'sporco.admm.cmod', 'sporco.pgm.cmod']
BOUNDS = ('one to three spatial dimensions; symbolic dimension sizes 1..6 for dimension '
          'inference; filters of at most 3x3 samples, 3 channels, 3 filters, mixed filter '
          'sizes, for the constraint set; all coefficient values')


class Shape:
    """Stands for an array of which only the dimensions are known."""

    def __init__(self, shape):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n


def arr(c, shape):
    if c.sym:
        return Shape(shape)
    return c.np.zeros(shape)


def shp_eq(c, label, got, want):
    c.true(label + ' ndim', len(got) == len(want))
    for a, b in zip(got, want):
        c.true(label, a == b)


IDX = [dict(dimN=n, dcd=d, rdim=r, dimK=k) for n in (1, 2, 3) for d in (0, 1) for r in (0, 1, 2)
       for k in (None, 0, 1) if not (k == 1 and r == 0) and not (k == 0 and r == 2)
       and not (k == 1 and r == 1 and d == 1)]


def want_dims(dimN, dcd, rdim, dimK):
    """(number of channel axes, number of signal axes) of the input signal"""
    if dimK is not None:
        return rdim - dimK, dimK
    if rdim == 0:
        return 0, 0
    if rdim == 1:
        return (1, 0) if dcd else (0, 1)
    return 1, 1


def pin(c, v, lo, hi):
    """Fork over the values of a symbolic size."""
    for k in range(lo, hi):
        if c.branch(v == k):
            return k
    return hi


def setup(c, dimN, dcd, rdim, dimK):
    N = tuple(c.int('N%d' % k, 1, 6) for k in range(dimN))
    Nd = tuple(c.int('Nd%d' % k, 1, 4) for k in range(dimN))
    M = c.int('M', 1, 4)
    Cd = c.int('Cd', 1, 3) if dcd else 1
    dimC, dK = want_dims(dimN, dcd, rdim, dimK)
    C = c.int('C', 1, 3) if dimC else 1
    if dcd:
        Cd = pin(c, Cd, 1, 3)
        C = pin(c, C, 1, 3) if dimC else 1
    K = c.int('K', 1, 3) if dK else 1
    s = N + ((C,) if dimC else ()) + ((K,) if dK else ())
    d = Nd + ((Cd,) if dcd else ()) + (M,)
    return N, Nd, M, Cd, C, K, dimC, dK, s, d


@reg.case('csc_index', IDX)
def csc_index(c, dimN, dcd, rdim, dimK):
    cr = c.mod('sporco.cnvrep')
    N, Nd, M, Cd, C, K, dimC, dK, s, d = setup(c, dimN, dcd, rdim, dimK)
    S, D = arr(c, s), arr(c, d)
    bad = dcd and c.branch(Cd > 1) and c.branch(C != Cd)
    if bad:
        c.raises('mismatch', lambda: cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN), ValueError)
        return
    ri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
    common(c, ri, dimN, N, C, K, M, Cd, dimC, dK, dcd)
    shp_eq(c, 'shpD', ri.shpD, Nd + (Cd, 1, M))
    n = 1
    for v in s:
        n = n * v
    m = 1
    for v in ri.shpS:
        m = m * v
    c.true('sizeS', n == m)


def common(c, ri, dimN, N, C, K, M, Cd, dimC, dK, dcd):
    c.true('C', ri.C == C)
    c.true('K', ri.K == K)
    c.true('M', ri.M == M)
    c.true('Cd', ri.Cd == Cd)
    c.true('dims', (ri.dimN, ri.dimC, ri.dimK, ri.dimCd) == (dimN, dimC, dK, dcd))
    c.true('axes', (tuple(ri.axisN), ri.axisC, ri.axisK, ri.axisM) ==
           (tuple(range(dimN)), dimN, dimN + 1, dimN + 2))
    n = 1
    for v in N:
        n = n * v
    c.true('N', ri.N == n)
    shp_eq(c, 'Nv', ri.Nv, N)
    shp_eq(c, 'shpS', ri.shpS, N + (C, K, 1))
    # a single-channel dictionary has separate maps for each channel, a
    # multi-channel one shares its maps between the channels
    cx = C if (not dcd or c.branch(Cd == 1)) else 1
    shp_eq(c, 'shpX', ri.shpX, N + (cx, K, M))


@reg.case('cdu_index', IDX)
def cdu_index(c, dimN, dcd, rdim, dimK):
    cr = c.mod('sporco.cnvrep')
    N, Nd, M, Cd, C, K, dimC, dK, s, d = setup(c, dimN, dcd, rdim, dimK)
    S = arr(c, s)
    bad = dcd and c.branch(Cd > 1) and c.branch(C != Cd)
    if bad:
        c.raises('mismatch', lambda: cr.CDU_ConvRepIndexing(d, S, dimK=dimK, dimN=dimN), ValueError)
        return
    ri = cr.CDU_ConvRepIndexing(d, S, dimK=dimK, dimN=dimN)
    common(c, ri, dimN, N, C, K, M, Cd, dimC, dK, dcd)
    shp_eq(c, 'shpD', ri.shpD, N + (Cd, 1, M))


def vmax(c, a, b):
    return a if c.branch(a >= b) else b


@reg.case('dict_size', [dict(form=f, dimN=n) for n in (1, 2, 3) for f in 'abcde'])
def dict_size(c, form, dimN):
    cr = c.mod('sporco.cnvrep')
    n = [tuple(c.int('n%d%d' % (k, j), 1, 4) for j in range(dimN)) for k in range(3)]
    m = [c.int('m%d' % k, 1, 3) for k in range(2)]
    ch = [c.int('c%d' % k, 1, 3) for k in range(2)]
    if form == 'a':
        dsz, mx, nc, nf, nd = n[0] + (m[0],), [n[0]], 1, m[0], dimN + 1
    elif form == 'b':
        dsz, mx, nc, nf, nd = n[0] + (ch[0], m[0]), [n[0]], ch[0], m[0], dimN + 2
    elif form == 'c':
        dsz = (n[0] + (m[0],), n[1] + (m[1],))
        mx, nc, nf, nd = n[:2], 1, m[0] + m[1], dimN + 1
    elif form == 'd':
        dsz = (n[0] + (ch[0], m[0]), n[1] + (ch[0], m[1]))
        mx, nc, nf, nd = n[:2], ch[0], m[0] + m[1], dimN + 2
    else:
        dsz = ((n[0] + (ch[0], m[0]), n[1] + (ch[1], m[0])),
               (n[2] + (ch[0], m[1]), n[1] + (ch[1], m[1])))
        mx, nc, nf, nd = n, ch[0] + ch[1], m[0] + m[1], dimN + 2
    ds = cr.DictionarySize(dsz, dimN)
    c.true('nchn', ds.nchn == nc)
    c.true('nflt', ds.nflt == nf)
    c.true('ndim', ds.ndim == nd)
    c.true('mxn', len(ds.mxsz) == dimN)
    for j in range(dimN):
        for t in mx:
            c.true('upper', ds.mxsz[j] >= t[j])
        hit = False
        for t in mx:
            hit = hit | (ds.mxsz[j] == t[j])
        c.true('attained', hit)


@reg.case('stdform', [dict(dimN=2, shape=(2, 2, 3), Cd=1, M=3), dict(dimN=2, shape=(2, 1, 2, 2), Cd=2, M=2),
                      dict(dimN=1, shape=(3, 2), Cd=1, M=2), dict(dimN=1, shape=(2, 2, 2), Cd=2, M=2),
                      dict(dimN=3, shape=(2, 1, 2, 2), Cd=1, M=2)])
def stdform(c, dimN, shape, Cd, M):
    cr = c.mod('sporco.cnvrep')
    D = c.real('D', shape)
    R = cr.stdformD(D, Cd, M, dimN)
    c.true('shape', tuple(R.shape) == shape[:dimN] + (Cd, 1, M))
    for i in spec.ndi(shape):
        ch = (i[dimN],) if len(shape) == dimN + 2 else (0,)
        c.eq('val', R[i[:dimN] + ch + (0, i[-1])], D[i])


# external signal layout, channels in D, and the expected alignment of the
# axes of an l1 weight / mask with the internal layout
WSH = []
for _N in ((3,), (2, 3)):
    for _lay in ((), ('K',), ('C',), ('C', 'K')):
        WSH.append(dict(N=_N, lay=_lay))


@reg.case('l1Wshape', WSH)
def l1Wshape(c, N, lay):
    cr = c.mod('sporco.cnvrep')
    np = c.np
    C, K, M = (2 if 'C' in lay else 1), (3 if 'K' in lay else 1), 4
    ext = N + tuple({'C': C, 'K': K}[q] for q in lay)
    D, S = np.zeros((1,) * len(N) + (M,)), np.zeros(ext)
    cri = cr.CSC_ConvRepIndexing(D, S, dimK=1 if 'K' in lay else 0, dimN=len(N))
    X = N + (C, K, M)
    variants = [ext + (M,), ext, ext + (1,), (1,) * len(ext) + (M,), X, (1,) * len(X),
                tuple(1 for _ in N) + ext[len(N):] + (M,), N + tuple(1 for _ in lay) + (M,)]
    for v in variants:
        W = c.real('W%s' % (v,), v)
        shp = cr.l1Wshape(W, cri)
        c.true('nd', len(shp) == len(N) + 3)
        R = W.reshape(shp)
        full = np.broadcast_to(R, X)
        # value of the weight seen by coefficient (n, ch, k, m)
        for i in spec.ndi(X):
            n, ch, k, m = i[:len(N)], i[-3], i[-2], i[-1]
            if len(v) == len(N) + 3:
                e = n + (ch, k, m)
            else:
                e = n + tuple({'C': ch, 'K': k}[q] for q in lay)
                if len(v) == len(ext) + 1:
                    e = e + (m,)
            e = tuple(a if s > 1 else 0 for a, s in zip(e, v))
            c.eq('weight', full[i], W[e])
    W = c.real('Ws', (1,))
    c.true('scalar', len(cr.l1Wshape(W, cri)) == len(N) + 3 and
           all(q == 1 for q in cr.l1Wshape(W, cri)))
    if lay:
        c.raises('invalid', lambda: cr.l1Wshape(np.zeros((2,) * (len(ext) - 1)), cri), ValueError)


@reg.case('mskWshape', WSH)
def mskWshape(c, N, lay):
    cr = c.mod('sporco.cnvrep')
    np = c.np
    C, K, M = (2 if 'C' in lay else 1), (3 if 'K' in lay else 1), 4
    ext = N + tuple({'C': C, 'K': K}[q] for q in lay)
    D, S = np.zeros((1,) * len(N) + (M,)), np.zeros(ext)
    for cri in (cr.CSC_ConvRepIndexing(D, S, dimK=1 if 'K' in lay else 0, dimN=len(N)),
                cr.CDU_ConvRepIndexing(D.shape, S, dimK=1 if 'K' in lay else 0, dimN=len(N))):
        Sh = N + (C, K, 1)
        variants = [ext, N, tuple(1 for _ in N) + ext[len(N):], N + tuple(1 for _ in lay), Sh,
                    N + (1, 1, 1)]
        if len(lay) == 2:
            variants += [N + (C,), N + (1, K), N + (C, 1)]
        for v in variants:
            W = c.real('W%s' % (v,), v)
            shp = cr.mskWshape(W, cri)
            c.true('nd', len(shp) == len(N) + 3)
            full = np.broadcast_to(W.reshape(shp), Sh)
            for i in spec.ndi(Sh):
                n, ch, k = i[:len(N)], i[-3], i[-2]
                if len(v) == len(N) + 3:
                    e = n + (ch, k, 0)
                elif len(v) == len(N) + 2:
                    e = n + (ch, k)
                elif len(v) == len(N) + 1:
                    e = n + ((k,) if lay == ('K',) else (ch,))
                else:
                    e = n
                e = tuple(a if s > 1 else 0 for a, s in zip(e, v))
                c.eq('mask', full[i], W[e])


@reg.case('zpad', [dict(shape=(2, 2, 1, 1, 2), Nv=(3, 4)), dict(shape=(2, 2, 2), Nv=(4,)), dict(shape=(2, 3, 1), Nv=(2, 3)),
                   dict(shape=(1, 2, 1, 1, 1, 2), Nv=(2, 2, 3))])
def zpad(c, shape, Nv):
    cr = c.mod('sporco.cnvrep')
    v = c.real('v', shape)
    c.keep(v)
    p = cr.zpad(v, Nv)
    c.unchanged()
    osh = Nv + shape[len(Nv):]
    c.true('shape', tuple(p.shape) == osh)
    for i in spec.ndi(osh):
        if all(a < b for a, b in zip(i, shape)):
            c.eq('in', p[i], v[i])
        else:
            c.eq('out', p[i], 0)


def support(dsz, dimN, C, M):
    """-> {(channel, filter): spatial size}, per the documented forms."""
    out = {}
    if not isinstance(dsz[0], tuple):
        for ch in range(C):
            for m in range(M):
                out[ch, m] = tuple(dsz[:dimN])
        return out
    m0 = 0
    for b in dsz:
        if isinstance(b[0], tuple):
            c0 = 0
            for cb in b:
                for ch in range(c0, c0 + cb[-2]):
                    for m in range(m0, m0 + cb[-1]):
                        out[ch, m] = tuple(cb[:dimN])
                c0 += cb[-2]
            m0 += b[0][-1]
        else:
            for ch in range(C):
                for m in range(m0, m0 + b[-1]):
                    out[ch, m] = tuple(b[:dimN])
            m0 += b[-1]
    return out


DSZ = [
    ((2, 2, 2), 2, (3, 3), 1), ((2, 1, 3), 2, (2, 3), 1), ((2, 2), 1, (4,), 1), ((2, 2, 2), 1, (3,), 2),
    ((2, 1, 2, 2), 2, (3, 2), 2), ((1, 2, 1, 2), 3, (2, 2, 2), 1), ((2, 1, 1, 2, 2), 3, (2, 2, 2), 2),
    (((1, 2, 1), (2, 1, 2)), 2, (3, 3), 1), (((1, 1), (3, 1)), 1, (4,), 1),
    (((1, 2, 2, 1), (2, 1, 2, 1)), 2, (2, 3), 2), (((1, 2, 1), (2, 2, 2)), 1, (3,), 2),
    ((((1, 1, 1, 1), (2, 1, 2, 1)), ((2, 2, 1, 1), (1, 2, 2, 1))), 2, (3, 2), 3),
    ((((1, 1, 1), (2, 1, 1)), ((3, 1, 2), (2, 1, 2))), 1, (3,), 2),
    (((1, 1, 2, 1), (2, 1, 1, 1)), 3, (2, 2, 2), 1),
]


def nflt(dsz):
    if not isinstance(dsz[0], tuple):
        return dsz[-1]
    return sum(b[0][-1] if isinstance(b[0], tuple) else b[-1] for b in dsz)


def maxsz(sup, dimN):
    return tuple(max(s[k] for s in sup.values()) for k in range(dimN))


@reg.case('bcrop', [dict(dsz=d, dimN=n, Nv=v, C=ch) for d, n, v, ch in DSZ])
def bcrop(c, dsz, dimN, Nv, C):
    cr = c.mod('sporco.cnvrep')
    M = nflt(dsz)
    v = c.real('v', Nv + (C, 1, M))
    c.keep(v)
    w = cr.bcrop(v, dsz, dimN)
    c.unchanged()
    sup = support(dsz, dimN, C, M)
    mx = maxsz(sup, dimN)
    c.true('shape', tuple(w.shape) == mx + (C, 1, M))
    for i in spec.ndi(mx + (C, 1, M)):
        s = sup[i[dimN], i[-1]]
        c.eq('crop', w[i], v[i] if all(i[k] < s[k] for k in range(dimN)) else 0)


@reg.case('Pcn', [dict(dsz=d, dimN=n, Nv=v, C=ch, crp=cp, zm=z) for d, n, v, ch in DSZ
                  for cp in (False, True) for z in (False, True)], limit=100)
def Pcn(c, dsz, dimN, Nv, C, crp, zm):
    cr = c.mod('sporco.cnvrep')
    np = c.np
    M = nflt(dsz)
    v = c.real('v', Nv + (C, 1, M))
    c.keep(v)
    sup = support(dsz, dimN, C, M)
    osh = maxsz(sup, dimN) if crp else Nv
    outs = [cr.getPcn(dsz, Nv, dimN=dimN, dimC=1, crp=crp, zm=zm)(v),
            cr.Pcn(v, dsz, Nv, dimN=dimN, dimC=1, crp=crp, zm=zm)]
    c.unchanged()
    zero = None
    for w in outs:
        c.true('shape', tuple(w.shape) == osh + (C, 1, M))
    for m in range(M):
        z = {}
        for ch in range(C):
            s = sup[ch, m]
            n = 1
            for t in s:
                n *= t
            mu = sum(v[i + (ch, 0, m)] for i in spec.ndi(s)) / n if zm else 0
            for i in spec.ndi(s):
                z[i + (ch, 0, m)] = v[i + (ch, 0, m)] - mu
        n2 = sum(q * q for q in z.values())
        for w in outs:
            for i in spec.ndi(osh):
                for ch in range(C):
                    j = i + (ch, 0, m)
                    if j not in z:
                        c.eq('support', w[j], 0)
            if c.branch(n2 == 0):
                for j in z:
                    c.eq('zero', w[j], 0)
            else:
                r = np.sqrt(n2)
                for j in z:
                    c.eq('proj', w[j] * r, z[j])


@reg.case('normalise', [dict(shape=(2, 2, 1, 2), dimN=2, cx=0), dict(shape=(3, 2), dimN=1, cx=0),
                        dict(shape=(2, 2), dimN=1, cx=1), dict(shape=(2, 1, 2, 2), dimN=3, cx=0)])
def normalise(c, shape, dimN, cx):
    cr = c.mod('sporco.cnvrep')
    np = c.np
    v = c.cplx('v', shape) if cx else c.real('v', shape)
    c.keep(v)
    w = cr.normalise(v, dimN)
    c.unchanged()
    for t in spec.ndi(shape[dimN:]):
        n2 = sum(spec.abs2(np, v[i + t]) for i in spec.ndi(shape[:dimN]))
        if c.branch(n2 == 0):
            for i in spec.ndi(shape[:dimN]):
                c.eq('zero', w[i + t], v[i + t])
        else:
            for i in spec.ndi(shape[:dimN]):
                c.eq('unit', w[i + t] * np.sqrt(n2), v[i + t])


@reg.case('zeromean', [dict(dsz=d, dimN=n, Nv=v, C=ch) for d, n, v, ch in DSZ])
def zeromean(c, dsz, dimN, Nv, C):
    cr = c.mod('sporco.cnvrep')
    M = nflt(dsz)
    v = c.real('v', Nv + (C, 1, M))
    c.keep(v)
    w = cr.zeromean(v, dsz, dimN)
    c.unchanged()
    sup = support(dsz, dimN, C, M)
    for (ch, m), s in sup.items():
        n = 1
        for t in s:
            n *= t
        mu = sum(v[i + (ch, 0, m)] for i in spec.ndi(s)) / n
        for i in spec.ndi(Nv):
            j = i + (ch, 0, m)
            c.eq('mean', w[j], v[j] - (mu if all(i[k] < s[k] for k in range(dimN)) else 0))


@reg.case('integer', [dict(fn=f, dt=d) for f in ('normalise', 'zeromean', 'Pcn', 'Pcnz') for d in ('uint8', 'int16')])
def integer(c, fn, dt):
    """an integer dictionary gives the result that the same numbers give in floating point"""
    C = c.mod('sporco.cnvrep')
    x = c.real('int:x', (2, 2, 2), lo=0 if dt == 'uint8' else -300, hi=200, dtype=dt)
    F = {'normalise': lambda z: C.normalise(z), 'zeromean': lambda z: C.zeromean(z, (2, 2, 2)),
         'Pcn': lambda z: C.Pcn(z, (2, 1, 2), (2, 2), 2, crp=True),
         'Pcnz': lambda z: C.Pcn(z, (2, 2, 2), (2, 2), 2, zm=True)}[fn]
    c.keep(x)
    y = F(x)
    c.unchanged()
    c.eq('value', y, F(x.astype('float64')))


@reg.case('columns', [dict(sub=s, zm=z, nn=n, shape=h, dt=d) for s in ('admm', 'pgm') for z in (0, 1) for n in ((0, 1) if s == 'pgm' else (0,))
                      for h in ((2, 2), (3, 1)) for d in ('float64', 'uint8') if not (z and n)])
def columns(c, sub, zm, nn, shape, dt):
    """unit norm (and zero mean, non-negative) columns of a standard dictionary"""
    np = c.np
    B = c.mod('sporco.%s.cmod' % sub)
    v = c.real('v', shape) if dt == 'float64' else c.real('int:v', shape, lo=0, hi=200, dtype=dt)
    c.keep(v)
    w = (B.getPcn(bool(zm)) if sub == 'admm' else B.getPcn(bool(zm), bool(nn)))(v)
    c.unchanged()
    z = v.astype('float64')
    for j in range(shape[1]):
        u = [z[i, j] for i in range(shape[0])]
        if zm:
            m = sum(u) / shape[0]
            u = [q - m for q in u]
        if nn:
            u = [np.where(q > 0, q, 0 * q) for q in u]
        n2 = sum(q * q for q in u)
        if c.branch(n2 == 0):
            for i in range(shape[0]):
                c.eq('zero', w[i, j], 0 * u[i])
        else:
            n = np.sqrt(n2)
            for i in range(shape[0]):
                c.eq('unit', w[i, j] * n, u[i])
