"""P03: Fourier/DCT wrappers and DFT-domain convolution."""
from sx.run import Registry
from sx import spec
reg = Registry()
MODULES = ['sporco.fft']
BOUNDS = ('transform sizes 1,2,3,4,6 in one to three dimensions, all listed axis '
          'subsets (negative axes included); all real/complex values')


def inp(c, name, shape, cx=1):
    return c.cplx(name, shape) if cx else c.real(name, shape)


SH = [((4,), None), ((3,), (0,)), ((2, 3), None), ((2, 3), (0,)), ((3, 2), (1,)), ((4, 3), (-2, -1)),
      ((2, 2, 3), (0, 2)), ((3, 4, 2), (0, 1)), ((2, 3, 2), (1, 0)), ((1, 4), (0, 1)), ((6,), (0,)),
      ((2, 2, 2), None), ((1, 1), (0, 1))]


@reg.case('inverse', [dict(shape=s, axes=a) for s, a in SH])
def inverse(c, shape, axes):
    f = c.mod('sporco.fft')
    np = c.np
    x = c.cplx('x', shape)
    r = c.real('r', shape)
    c.keep(x, r)
    ax = spec.norm_axes(axes, len(shape))
    s = [shape[k] for k in ax]
    xf = f.fftn(x, None, axes)
    c.eq('c2c', f.ifftn(xf, None, axes), x)
    c.eq('c2c_s', f.ifftn(f.fftn(x, s, ax), s, ax), x)
    c.eq('r2c', f.irfftn(f.rfftn(r, None, axes), s, ax), r)
    c.eq('r2c_s', f.irfftn(f.rfftn(r, s, ax), s, ax), r)
    rf, ff = f.rfftn(r, None, ax), f.fftn(r, None, ax)
    hs = tuple(slice(0, shape[ax[-1]] // 2 + 1) if k == ax[-1] else slice(None)
               for k in range(len(shape)))
    c.eq('half', rf, ff[hs])
    c.unchanged()
    idx0 = tuple(0 if k in ax else slice(None) for k in range(len(shape)))
    c.eq('dc', ff[idx0], np.sum(r + 0j, axis=ax))
    e = f.rfftn_empty_aligned(shape, ax, np.dtype('float64'))
    c.true('buffer', tuple(e.shape) == tuple(rf.shape))
    c.true('bufdt', e.dtype == rf.dtype)
    e2 = f.empty_aligned(shape, np.dtype('complex128'))
    c.true('buffer2', tuple(e2.shape) == tuple(ff.shape))


@reg.case('definition', [dict(n=2), dict(n=4)])
def definition(c, n):
    f = c.mod('sporco.fft')
    np = c.np
    x = c.cplx('x', (n, 2))
    X = f.fftn(x, axes=(0,))
    tw = [1, -1j, -1, 1j]
    for k in range(n):
        for m in range(2):
            c.eq('dft', X[k, m], sum(x[j, m] * tw[(j * k * (4 // n)) % 4] for j in range(n)))
            c.eq('idft', f.ifftn(x, axes=(0,))[k, m],
                 sum(x[j, m] * np.conj(tw[(j * k * (4 // n)) % 4]) for j in range(n)) / n)


@reg.case('padding', [dict(shape=(2, 3), axes=(0, 1), s=(4, 4)), dict(shape=(3, 2), axes=(0,), s=(4,)),
                      dict(shape=(4, 2), axes=(0, 1), s=(3, 3)), dict(shape=(2, 2, 2), axes=(1, 2), s=(3, 2)),
                      dict(shape=(2, 2, 2), axes=(0, 1), s=(3, 4))])
def padding(c, shape, axes, s):
    f = c.mod('sporco.fft')
    np = c.np
    x = c.cplx('x', shape)
    r = c.real('r', shape)
    for v, fw, bw, nm in ((x, f.fftn, f.ifftn, 'c'), (r, f.rfftn, f.irfftn, 'r')):
        y = bw(fw(v, s, axes), s, axes)
        crop = v[tuple(slice(0, s[axes.index(k)]) if k in axes else slice(None)
                       for k in range(len(shape)))]
        c.eq('pad' + nm, y, spec.zpadto(np, crop, s, axes))


CONV = [dict(sa=a, sb=b, axes=x, cx=z, origin=o) for a, b, x, z, o in [
    ((4,), (2,), None, 0, None), ((3,), (4,), (0,), 0, None), ((4,), (3,), (0,), 1, None),
    ((2, 3), (2, 2), None, 0, None), ((3, 4), (2, 2), (0, 1), 0, (1, 0)),
    ((3, 4), (2, 3), (0, 1), 0, (1, 2)), ((2, 4), (2, 3), (1,), 0, (1,)),
    ((4, 2), (3, 2), (0,), 1, (2,)), ((3, 1, 2), (2, 2, 1), (0,), 0, None),
    ((2, 3, 2), (1, 2, 1), (0, 1), 0, (0, 1)), ((2, 2, 3), (1, 2, 2), (1, 2), 0, None),
    ((3, 3), (3, 3), (0, 1), 1, (1, 1)), ((2, 2, 2), (2, 2, 2), None, 0, (1, 0, 1)),
    ((4,), (4,), (0,), 0, (0,)), ((4, 3), (2, 4), (0, 1), 0, (1, 1))]]


@reg.case('fftconv', CONV)
def fftconv(c, sa, sb, axes, cx, origin):
    f = c.mod('sporco.fft')
    np = c.np
    a, b = inp(c, 'a', sa, cx), inp(c, 'b', sb, 0)
    c.keep(a, b)
    y = f.fftconv(a, b, axes=axes, origin=origin)
    c.unchanged()
    ref = spec.cconv(np, a, b, axes, origin)
    c.eq('conv', y, ref)
    c.true('real', np.iscomplexobj(y) == bool(cx))
    c.eq('commute', f.fftconv(b, a, axes=axes, origin=origin), ref)


@reg.case('parseval', [dict(shape=s, axes=a) for s, a in [
    ((4,), (0,)), ((3,), (0,)), ((2, 2), (0, 1)), ((2, 3), (0, 1)), ((3, 4), (0, 1)), ((4, 2), (0,)),
    ((2, 4), (1,)), ((3, 3, 2), (0, 1)), ((2, 4, 2), (0, 1)), ((2, 1, 3), (0, 2)), ((1, 4), (0, 1)),
    ((2, 2, 2), (0, 1, 2)), ((4, 1), (0, 1)), ((6, 2), (0,))]])
def parseval(c, shape, axes):
    f = c.mod('sporco.fft')
    np = c.np
    x = c.cplx('x', shape)
    r = c.real('r', shape)
    c.eq('complex', f.fl2norm2(f.fftn(x, axes=axes), axes), spec.nrm2(np, x))
    c.eq('real', f.rfl2norm2(f.rfftn(r, axes=axes), shape, axes), spec.nrm2(np, r))
    c.eq('func_c', f.fl2norm2_func(False)(f.fftn_func(False)(x, None, axes), shape, axes),
         spec.nrm2(np, x))
    c.eq('func_r', f.fl2norm2_func(True)(f.fftn_func(True)(r, None, axes), shape, axes),
         spec.nrm2(np, r))
    s = [shape[k] for k in axes]
    c.eq('ifunc_c', f.ifftn_func(False)(f.fftn_func(False)(x, None, axes), s, axes), x)
    c.eq('ifunc_r', f.ifftn_func(True)(f.fftn_func(True)(r, None, axes), s, axes), r)
    for real in (False, True):
        e = f.empty_aligned_func(real)(shape, axes, np.dtype('float64' if real else 'complex128'))
        c.true('efunc', tuple(e.shape) == tuple(
            f.fftn_func(real)(r, None, axes).shape))


@reg.case('dct', [dict(shape=s, axes=a) for s, a in [
    ((2,), None), ((3,), (0,)), ((2, 3), None), ((2, 3), (0,)), ((3, 2), (-1,)), ((4,), None) if False else ((2, 2, 2), (0, 2)),
    ((6,), (0,))]])
def dct(c, shape, axes):
    f = c.mod('sporco.fft')
    np = c.np
    x = c.real('x', shape)
    c.keep(x)
    X = f.dctii(x, axes)
    c.unchanged()
    c.eq('inverse', f.idctii(X, axes), x)
    c.eq('inverse2', f.dctii(f.idctii(x, axes), axes), x)
    c.eq('orthonormal', spec.nrm2(np, X), spec.nrm2(np, x))
    ax = spec.norm_axes(axes, len(shape))
    n = 1
    for k in ax:
        n *= shape[k]
    i0 = tuple(0 if k in ax else slice(None) for k in range(len(shape)))
    c.eq('dc', X[i0] * np.sqrt(c.scalar(n)), np.sum(x, axis=ax))


@reg.case('dtypes', [dict(dt='float32'), dict(dt='float64'), dict(dt='complex64'), dict(dt='complex128')])
def dtypes(c, dt):
    f = c.mod('sporco.fft')
    np = c.np
    d = np.dtype(dt)
    c.true('iscomplex', f.is_complex_dtype(d) == dt.startswith('complex'))
    single = dt in ('float32', 'complex64')
    c.true('cdt', f.complex_dtype(d) == np.dtype('complex64' if single else 'complex128'))
    c.true('rdt', f.real_dtype(d) == np.dtype('float32' if single else 'float64'))
    x = c.real('x', (4,)).astype(dt)
    c.true('fwd', f.fftn(x, axes=(0,)).dtype == np.dtype('complex64' if single else 'complex128'))
