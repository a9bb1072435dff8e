"""P02: structured linear solvers and linear-algebra helpers."""
from sx.run import Registry
from sx.swap import without, swapped
from sx import csc
reg = Registry()
MODULES = ['sporco.linalg']
BOUNDS = ('systems with 1-3 unknowns per frequency, 1-2 frequencies, 1-3 stacked '
          'terms, dense matrices up to 3x3; all real/complex values, rho > 0')


def ip(np, x, y, axis):
    return np.sum(x * y, axis=axis, keepdims=True)


def inp(c, name, shape, cx=1):
    return c.cplx(name, shape) if cx else c.real(name, shape)


@reg.case('inner', [dict(shape=s, axis=a, cx=x) for s, a, x in [
    ((3,), 0, 1), ((2, 3), 0, 0), ((2, 3), 1, 1), ((2, 3), -1, 0), ((2, 2, 2), 1, 1),
    ((2, 1, 3), -2, 0), ((1, 2, 2, 2), -3, 0), ((2, 2, 2), -1, 0), ((2, 2, 2), 0, 0)]])
def inner(c, shape, axis, cx):
    la = c.mod('sporco.linalg')
    x, y = inp(c, 'x', shape, cx), inp(c, 'y', shape, cx)
    c.keep(x, y)
    c.eq('inner', la.inner(x, y, axis=axis), ip(c.np, x, y, axis))
    c.unchanged()


@reg.case('inner_bcast', [dict(s1=(2, 1, 3), s2=(1, 2, 3), axis=-1),
                          dict(s1=(2, 3, 1), s2=(1, 3, 2), axis=1)])
def inner_b(c, s1, s2, axis):
    la = c.mod('sporco.linalg')
    x, y = inp(c, 'x', s1, 0), inp(c, 'y', s2, 0)
    c.eq('inner', la.inner(x, y, axis=axis), ip(c.np, x, y, axis))


@reg.case('dot', [dict(ash=(2, 3), bsh=s, axis=a) for s, a in [
    ((3, 2), 0), ((3, 2), -2), ((2, 3), 1), ((2, 3), -1), ((2, 3, 2), 1), ((2, 3, 2), -2),
    ((3, 1, 2), 0), ((1, 2, 3), -1)]])
def dot(c, ash, bsh, axis):
    la = c.mod('sporco.linalg')
    np = c.np
    a, b = c.real('a', ash), c.cplx('b', bsh)
    r = la.dot(a, b, axis=axis)
    ax = axis % len(bsh)
    osh = bsh[:ax] + (ash[0],) + bsh[ax + 1:]
    c.true('shape', tuple(r.shape) == osh)
    for i in np.ndindex(*osh):
        c.eq('dot', r[i], sum(a[i[ax], k] * b[i[:ax] + (k,) + i[ax + 1:]]
                              for k in range(ash[1])))


DBI = [dict(shape=s, axis=a, cx=x) for s, a, x in [
    ((2, 1, 1, 1, 2), 4, 1), ((1, 1, 1, 1, 3), 4, 1), ((2, 2), 0, 1), ((2, 2), -1, 1),
    ((1, 2, 1, 2), 1, 0), ((3,), 0, 1), ((1, 1, 1, 1, 1), 4, 1), ((2, 1, 2), -3, 0)]]
DBI += [dict(q, ne=0) for q in DBI]


@reg.case('solvedbi_sm', DBI)
def solvedbi(c, shape, axis, cx, ne=1):
    la = c.mod('sporco.linalg')
    np = c.np
    ah, b = inp(c, 'ah', shape, cx), inp(c, 'b', shape, cx)
    rho = c.real('rho', pos=True)
    c.keep(ah, b)
    with without(c, 'have_numexpr', 'sporco.linalg', on=not ne):
        x = la.solvedbi_sm(ah, rho, b, axis=axis)
        c.unchanged()
        c.eq('system', np.conj(ah) * ip(np, ah, x, axis) + rho * x, b)
        cc = la.solvedbi_sm_c(ah, np.conj(ah), rho, axis)
        c.keep(cc)
        c.eq('cached', la.solvedbi_sm(ah, rho, b, cc, axis=axis), x)
    c.unchanged()


@reg.case('solvedbi_sm_bcast', [dict(ash=(2, 1, 1, 1, 2), bsh=(2, 1, 2, 1, 2), axis=4),
                                dict(ash=(1, 1, 2, 1, 2), bsh=(1, 1, 2, 2, 2), axis=4)])
def solvedbi_b(c, ash, bsh, axis):
    la = c.mod('sporco.linalg')
    np = c.np
    ah, b = inp(c, 'ah', ash), inp(c, 'b', bsh)
    rho = c.real('rho', pos=True)
    x = la.solvedbi_sm(ah, rho, b, axis=axis)
    c.eq('system', np.conj(ah) * ip(np, ah, x, axis) + rho * x, b)


@reg.case('solvedbd_sm', [dict(shape=s, dshape=d, axis=a, ne=n) for n in (1, 0) for s, d, a in [
    ((2, 1, 1, 1, 2), (2, 1, 1, 1, 2), 4), ((1, 1, 1, 1, 2), (1, 1, 1, 1, 2), 4),
    ((2, 2), (2, 2), 0), ((2, 2), (2, 1), -1), ((3,), (3,), 0), ((1, 2, 2), (1, 2, 1), 1)]])
def solvedbd(c, shape, dshape, axis, ne=1):
    la = c.mod('sporco.linalg')
    np = c.np
    ah, b = inp(c, 'ah', shape), inp(c, 'b', shape)
    d = c.real('d', dshape, pos=True)
    c.keep(ah, b, d)
    with without(c, 'have_numexpr', 'sporco.linalg', on=not ne):
        x = la.solvedbd_sm(ah, d, b, axis=axis)
        c.unchanged()
        c.eq('system', np.conj(ah) * ip(np, ah, x, axis) + d * x, b)
        cc = la.solvedbd_sm_c(ah, np.conj(ah), d, axis)
        c.eq('cached', la.solvedbd_sm(ah, d, b, cc, axis=axis), x)


# sum_k a_k a_k^H x + rho x = b   (axisM: unknowns, axisK: terms)
def mdbi_check(c, np, ah, rho, b, x, axisM, axisK):
    a = np.conj(ah)
    lhs = ip(np, a, ip(np, ah, x, axisM), axisK) + rho * x
    c.eq('system', lhs, b)


MD = [dict(shape=s, bshape=b, axisM=m, axisK=k) for s, b, m, k in [
    ((1, 1, 1, 1, 2), (1, 1, 1, 1, 2), 4, 3),
    ((2, 1, 1, 2, 2), (2, 1, 1, 1, 2), 4, 3),
    ((1, 1, 1, 2, 1), (1, 1, 1, 1, 1), 4, 3),
    ((1, 1, 1, 3, 1), (1, 1, 1, 1, 1), -1, -2),
    ((1, 1, 1, 2, 2), (1, 1, 1, 1, 2), -1, -2)]]


@reg.case('solvemdbi_ism', MD, limit=90)
def ism(c, shape, bshape, axisM, axisK):
    la = c.mod('sporco.linalg')
    ah, b = inp(c, 'ah', shape), inp(c, 'b', bshape)
    rho = c.real('rho', pos=True)
    c.keep(ah, b)
    x = la.solvemdbi_ism(ah, rho, b, axisM, axisK)
    c.unchanged()
    mdbi_check(c, c.np, ah, rho, b, x, axisM, axisK)


CONST = [[1, 2], [-1, 1], [3, -2], [2, 1], [1, -3], [0.5, 2], [-2, 1], [1, 1],
         [2, -1], [-1, -2], [1, 3], [0, 1]]


def cmat(c, np, shape):
    n = 1
    for s in shape:
        n *= s
    v = [complex(*CONST[k % len(CONST)]) * (1 + k // len(CONST)) for k in range(n)]
    return c.const(v, dtype='complex128').reshape(shape)


@reg.case('solvemdbi_fixedA', [
    dict(method=m, shape=s, bshape=b, rho=r) for m in ('ism', 'rsm', 'cg')
    for s, b in [((1, 1, 1, 3, 2), (1, 1, 1, 1, 2)), ((1, 1, 1, 2, 3), (1, 1, 1, 1, 3)),
                 ((2, 1, 1, 2, 2), (2, 1, 1, 1, 2)), ((1, 2, 2, 1, 2), (1, 2, 2, 1, 2))]
    for r in (0.5,)
    if not (m == 'rsm' and s[2] > 1)])
def fixedA(c, method, shape, bshape, rho):
    """Concrete filters, symbolic right-hand side."""
    la = c.mod('sporco.linalg')
    np = c.np
    ah = cmat(c, np, shape)
    b = c.cplx('b', bshape)
    if method == 'ism':
        x = la.solvemdbi_ism(ah, rho, b, 4, 3)
    elif method == 'rsm':
        x = la.solvemdbi_rsm(ah, rho, b, 3)
    else:
        x, it = la.solvemdbi_cg(ah, rho, b, 4, 3, tol=1e-10)
        x = x.reshape(bshape)
    mdbi_check(c, np, ah, rho, b, x, 4, 3)


@reg.case('solvemdbi_rsm', [dict(shape=(1, 1, 1, 1, 2), dimN=2), dict(shape=(2, 1, 1, 1, 1), dimN=2),
                            dict(shape=(1, 1, 1, 2), dimN=1), dict(shape=(1, 1, 1, 2, 1), dimN=2),
                            dict(shape=(1, 1, 1, 2, 2), dimN=2, _tier='thorough')], limit=90)
def rsm(c, shape, dimN):
    la = c.mod('sporco.linalg')
    ax = dimN + 1
    bsh = shape[:ax] + (1,) + shape[ax + 1:]
    ah, b = inp(c, 'ah', shape), inp(c, 'b', bsh)
    rho = c.real('rho', pos=True)
    c.keep(ah, b)
    x = la.solvemdbi_rsm(ah, rho, b, ax, dimN=dimN)
    c.unchanged()
    mdbi_check(c, c.np, ah, rho, b, x, dimN + 2, ax)


@reg.case('solvemdbi_cg', [dict(shape=(1, 1, 1, 1, 2)), dict(shape=(2, 1, 1, 1, 1)),
                           dict(shape=(1, 1, 1, 2, 1)), dict(shape=(1, 1, 1, 1, 2), isn=1)])
def cgs(c, shape, isn=0):
    la = c.mod('sporco.linalg')
    bsh = shape[:3] + (1,) + shape[4:]
    ah, b = inp(c, 'ah', shape), inp(c, 'b', bsh)
    rho = c.real('rho', pos=True)
    kw = {'isn': c.cplx('isn', bsh)} if isn else {}
    x, it = la.solvemdbi_cg(ah, rho, b, 4, 3, tol=1e-10, **kw)
    mdbi_check(c, c.np, ah, rho, b, x.reshape(bsh), 4, 3)


@reg.case('dense', [dict(kind=k, shape=s, nrhs=n) for k in ('lu', 'cho')
                    for s, n in [((2, 2), 1), ((3, 2), 2), ((2, 3), 2), ((1, 2), 1), ((3, 1), 2)]]
          + [dict(kind='chol', shape=s, nrhs=n) for s, n in [((3, 2), 2), ((2, 3), 1)]])
def dense(c, kind, shape, nrhs):
    """(A^T A + rho I) X = B and X (A A^T + rho I) = B."""
    la = c.mod('sporco.linalg')
    np = c.np
    N, M = shape
    A = c.real('A', shape)
    rho = c.real('rho', pos=True)
    B = c.real('B', (M, nrhs))
    B2 = c.real('B2', (nrhs, N))
    c.keep(A, B, B2)
    if kind == 'lu':
        f = la.lu_factor(A, rho)
        X = la.lu_solve_ATAI(A, rho, B, *f)
        X2 = la.lu_solve_AATI(A, rho, B2, *f)
    else:
        kw = dict(lower=True) if kind == 'chol' else {}
        f = la.cho_factor(A, rho, **kw)
        X = la.cho_solve_ATAI(A, rho, B, *f)
        X2 = la.cho_solve_AATI(A, rho, B2, *f)
    c.unchanged()
    c.eq('ATA', A.T.dot(A.dot(X)) + rho * X, B)
    c.eq('AAT', X2.dot(A).dot(A.T) + rho * X2, B2)


ROT = [[0.6, 0.8], [-0.8, 0.6]]


@reg.case('sylvester', [dict(a=a, b=b, shape=s) for a, b, s in [
    ('diag', 'diag', (2, 2)), ('diag1', 'diag1', (2, 3)), ('eig', 'eig', (2, 2)),
    ('eig', 'diag1', (2, 3)), ('diag1', 'eig', (3, 2)), ('mat', 'diag1', (2, 2)),
    ('diag1', 'mat', (2, 2)), ('mat', 'diag', (2, 1))]])
def sylvester(c, a, b, shape):
    """A X B + alpha X = C for symmetric positive semi-definite A and B."""
    la = c.mod('sporco.linalg')
    np = c.np
    n, m = shape
    C = c.real('C', shape)
    alpha = c.real('alpha', pos=True)
    Q = c.const(ROT)

    def mk(kind, nm, n, row):
        lam = c.real('lam' + nm, (n,), nonneg=True)
        D = lam.reshape((-1, 1)) * c.const([[1.0 * (i == j) for j in range(n)] for i in range(n)])
        if kind == 'diag1':
            return lam, D
        if kind == 'diag':
            return lam.reshape((1, n) if row else (n, 1)), D
        if kind == 'eig':
            return (lam, Q), Q.dot(D).dot(Q.T)
        M = c.real('M' + nm, (n, n))
        M = np.array([[M[max(i, j), min(i, j)] for j in range(n)] for i in range(n)])
        w, V = np.linalg.eigh(M)      # contract: M = V diag(w) V^T
        c.assume(w[0] >= 0)
        return M, (w, V)
    A, Af = mk(a, 'A', n, False)
    B, Bf = mk(b, 'B', m, True)
    c.keep(C)
    X = la.solve_symmetric_sylvester(A, B, C, alpha)
    c.unchanged()
    if a == 'mat':
        w, V = Af
        c.eq('sylvester', w.reshape((-1, 1)) * V.T.dot(X).dot(Bf) + alpha * V.T.dot(X),
             V.T.dot(C))
    elif b == 'mat':
        w, V = Bf
        c.eq('sylvester', Af.dot(X).dot(V) * w + alpha * X.dot(V), C.dot(V))
    else:
        c.eq('sylvester', Af.dot(X).dot(Bf) + alpha * X, C)


@reg.case('block_circulant', [dict(n=n, shape=s) for n, s in [
    (1, (2, 2)), (2, (1, 1)), (3, (2, 1)), (3, (1, 2)), (4, (2, 2))]])
def circ(c, n, shape):
    la = c.mod('sporco.linalg')
    np = c.np
    A = [c.real('A%d' % k, shape) for k in range(n)]
    B = la.block_circulant(A)
    r, q = shape
    c.true('shape', tuple(B.shape) == (n * r, n * q))
    for i in range(n):
        for j in range(n):
            c.eq('block', B[i * r:(i + 1) * r, j * q:(j + 1) * q], A[(i - j) % n])


@reg.case('rrs', [dict(shape=(3,), cx=0), dict(shape=(2, 2), cx=0), dict(shape=(2,), cx=1)])
def rrs(c, shape, cx):
    la = c.mod('sporco.linalg')
    np = c.np
    ax, b = inp(c, 'ax', shape, cx), inp(c, 'b', shape, cx)
    r = la.rrs(ax, b)
    n2 = lambda v: np.sum(np.real(v) ** 2 + np.imag(v) ** 2)
    big = np.maximum(np.sqrt(n2(ax)), np.sqrt(n2(b)))
    c.eq('rrs', r * big, np.sqrt(n2(ax - b)))
    c.le('nonneg', 0, r)


@reg.case('pca', [dict(shape=(2, 2), centre=False), dict(shape=(2, 3), centre=True),
                  dict(shape=(3, 2), centre=False)])
def pca(c, shape, centre):
    la = c.mod('sporco.linalg')
    np = c.np
    U = c.real('U', shape)
    c.keep(U)
    B, S, C = la.pca(U, centre)
    c.unchanged()
    n = shape[1]
    if centre:
        mean = [sum(U[i, j] for j in range(n)) / n for i in range(shape[0])]
        c.eq('centre', C, np.array([[m] for m in mean]))
        Uc = U - np.array([[m] for m in mean])
    else:
        c.true('nocentre', C is None)
        Uc = U
    b, s, v = np.linalg.svd(Uc, full_matrices=False)
    c.eq('basis', B, b)
    c.eq('spectrum', S, s * s)


@reg.case('nkp', [dict(b=(2, 2), cs=(2, 1)), dict(b=(2, 3), cs=(2, 2)), dict(b=(2, 2), cs=(1, 2)),
                  dict(b=(3, 2), cs=(1, 2)), dict(b=(2, 2), cs=(2, 3))])
def nkp(c, b, cs):
    """Rearrangement: Kronecker factors of the leading singular triple."""
    la = c.mod('sporco.linalg')
    np = c.np
    A = c.real('A', (b[0] * cs[0], b[1] * cs[1]))
    # rearranged matrix from the definition
    At = np.array([[A[i0 * cs[0] + j0, i1 * cs[1] + j1]
                    for j1 in range(cs[1]) for j0 in range(cs[0])]
                   for i1 in range(b[1]) for i0 in range(b[0])])
    U, s, V = np.linalg.svd(At, full_matrices=False)
    B, C = la.nkp(A, b, cs)
    S2, B2, C2 = la.kpsvd(A, b, cs)
    c.true('shapes', tuple(B.shape) == tuple(b) and tuple(C.shape) == tuple(cs))
    for i0, i1, j0, j1 in np.ndindex(b[0], b[1], cs[0], cs[1]):
        r, q = i1 * b[0] + i0, j1 * cs[0] + j0
        c.eq('nkp', B[i0, i1] * C[j0, j1], s[0] * U[r, 0] * V[0, q])
        for k in range(min(At.shape)):
            c.eq('kpsvd', S2[k] * B2[i0, i1, k] * C2[j0, j1, k], s[k] * U[r, k] * V[k, q])


@reg.case('proj_l2ball', [dict(shape=(2,), axes=None), dict(shape=(2, 2), axes=(1,)),
                          dict(shape=(2, 2), axes=(0,))])
def l2ball(c, shape, axes):
    la = c.mod('sporco.linalg')
    np = c.np
    b, s = c.real('b', shape), c.real('s', shape)
    r = c.real('r', nonneg=True)
    x = la.proj_l2ball(b, s, r, axes)
    d = np.sqrt(np.sum((b - s) ** 2, axis=axes, keepdims=True))
    c.eq('nearest', (x - s) * np.maximum(d, r), (b - s) * r)


@reg.case('reject', [dict(bad=0), dict(bad=1)])
def reject(c, bad):
    la = c.mod('sporco.linalg')
    A = c.real('A', (4, 4))
    bs = (2, 1) if bad else (3, 2)
    cs = (2, 3) if bad else (2, 2)
    c.raises('nkp', lambda: la.nkp(A, bs, cs), ValueError)
    c.raises('kpsvd', lambda: la.kpsvd(A, bs, cs), ValueError)


@reg.case('valid_adjoint', [dict(xs=x, ys=y, eps=e) for x, y in (((2,), (3,)), ((2, 2), (3,)), ((2, 1), (1, 2))) for e in (None, 0.25, 1e-7, 'exact')])
def valid_adjoint(c, xs, ys, eps):
    """the relative discrepancy of <y, A x> and <A^T y, x> for the drawn
    values, or whether it is below the tolerance"""
    np = c.np
    la = c.mod('sporco.linalg')
    n, m = int(np.prod(xs)), int(np.prod(ys))
    A = c.real('A', (m, n)) if eps == 'exact' else c.const(csc.vals((m, n), 3))
    B = A.T if eps == 'exact' else c.real('B', (n, m))
    vs, sh = [], []
    val = lambda i, a: c.const(csc.vals(a, 5 + i) + 1.5)

    def randn(*a):
        sh.append(tuple(a))
        vs.append(val(len(vs), tuple(a)))
        return vs[-1]
    with swapped(la, ('numpy.random', 'randn', randn)):
        x, y = val(0, xs), val(1, ys)
        p = np.sum(np.dot(A, x.ravel()) * y.ravel())
        q = np.sum(np.dot(B, y.ravel()) * x.ravel())
        c.assume(abs(p) >= 0.125)
        c.assume(abs(q) >= 0.125)
        r = la.valid_adjoint(lambda z: np.dot(A, z.ravel()).reshape(ys), lambda z: np.dot(B, z.ravel()).reshape(xs), xs, ys,
                             **({} if eps == 'exact' else dict(eps=eps)))
    c.true('arguments', sh == [xs, ys])
    mx = np.maximum(abs(p), abs(q))
    if eps is None:
        c.eq('error', r * mx, abs(p - q))
    elif eps == 'exact':
        c.true('adjoint', r)
    else:
        if r:
            c.true('accepted', abs(p - q) <= eps * mx * 1.001)
        else:
            c.true('rejected', abs(p - q) >= eps * mx * 0.999)
