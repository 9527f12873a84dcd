"""C43 convolution and kernels: every method equals the direct sum, kernels keep their norm and their centre."""
from fractions import Fraction
from ..values import *
from ..mlrel import decide
from .c11 import Plane, mask, bools, same, shaped, total, mean, expected_low, expected_high, placed, MASKS, GR, NU, SF, PG, PS, IU, UT

CV = 'lenstronomy.ImSim.Numerics.convolution:'
NC = 'lenstronomy.ImSim.Numerics.numba_convolution:'
AC = 'lenstronomy.ImSim.Numerics.adaptive_numerics:'
KU = 'lenstronomy.Util.kernel_util:'


def direct(H, v, ny, nx, k, ky, kx):
    """centred convolution sum, zero outside of the image."""
    out = []
    for y in range(ny):
        for x in range(nx):
            terms = []
            for j in range(ky):
                for i in range(kx):
                    Y, X = y - j + (ky - 1) // 2, x - i + (kx - 1) // 2
                    if 0 <= Y < ny and 0 <= X < nx:
                        t = v[Y * nx + X]
                        if not (isinstance(t, Const) and t.v == 0):
                            terms.append(H.mul(k[j * kx + i], t))
            out.append(total(H, terms) if terms else Const(0))
    return out


def average(H, v, ny, nx, s):
    """mean of blocks of s x s; ny, nx of the result."""
    w = nx * s
    return [mean(H, [v[(s * y + j) * w + s * x + i] for j in range(s) for i in range(s)]) for y in range(ny) for x in range(nx)]


def zeroed(v, on):
    return [x if b else Const(0) for x, b in zip(v, on)]


def flat(m):
    return [b for r in m for b in r]


def up(m, s):
    return [[m[y // s][x // s] for x in range(s * len(m[0]))] for y in range(s * len(m))]


def kernel(H, n, name='k', m=None):
    k = H.img(name, n, m or n, positive=True)
    return k, H.flat(k)


# ------------------------------------------------------------------ convolution classes
def pixel(kind, ny, nx, ky, kx):
    def rel(H):
        H.M.run.generic = True
        k, kv = kernel(H, ky, m=kx)
        c = H.new(CV + 'PixelKernelConvolution', k, kind)
        out = []
        for n in ('i', 'j'):        # a second image after the first
            im = H.img(n, ny, nx)
            r = H.m(c, 'convolution2d', im)
            want = direct(H, H.flat(im), ny, nx, kv, ky, kx)
            out += shaped(H, r, ny, nx) + same(H, r, want) + same(H, H.m(c, 're_size_convolve', im), want)
        return out
    return rel


def transposed(kind):
    def rel(H):
        k, kv = kernel(H, 3)
        c = H.m(H.new(CV + 'PixelKernelConvolution', k, kind), 'copy_transpose')
        im = H.img('i', 3, 4)
        return same(H, H.m(c, 'convolution2d', im), direct(H, H.flat(im), 3, 4, [kv[3 * i + j] for j in range(3) for i in range(3)], 3, 3))
    return rel


def cut(n, m):
    def rel(H):
        k, kv = kernel(H, n)
        c = H.new(CV + 'PixelKernelConvolution', k, 'fft')
        d = (n - m) // 2
        core = [kv[(y + d) * n + x + d] for y in range(m) for x in range(m)]
        t = total(H, core)
        r = H.m(c, 'pixel_kernel', m)
        return shaped(H, r, m, m) + same(H, r, [H.op('/', v, t) for v in core]) + same(H, H.m(c, 'pixel_kernel'), kv) + \
            same(H, H.call(KU + 'cut_psf', k, m, normalisation=False), core) + same(H, H.call(IU + 'cut_edges', k, m), core) + same(H, k, kv)
    return rel


def subgrid(kind, ny, nx, s, n):
    """supersampled convolution: convolve at high resolution, then average."""
    def rel(H):
        k, kv = kernel(H, n)
        c = H.new(CV + 'SubgridKernelConvolution', k, s, None, kind)
        out = []
        for nm in ('i', 'j'):
            im = H.img(nm, s * ny, s * nx)
            v = H.flat(im)
            want = average(H, direct(H, v, s * ny, s * nx, kv, n, n), ny, nx, s)
            low = H.nd(average(H, v, ny, nx, s), ny, nx)
            r = H.m(c, 'convolution2d', im)
            out += shaped(H, r, ny, nx) + same(H, r, want) + same(H, H.m(c, 're_size_convolve', low, im), want)
        return out
    return rel


def split_flux(kind, s, n, size, ny=5, nx=6):
    """split kernel: an interior pixel spreads exactly the norm of the kernel, both entry points agree."""
    def rel(H):
        k, kv = kernel(H, n)
        c = H.new(CV + 'SubgridKernelConvolution', k, s, size, kind)
        v = [Const(0)] * (s * s * ny * nx)
        f = []
        for j in range(s):
            for i in range(s):
                v[(s * (ny // 2) + j) * s * nx + s * (nx // 2) + i] = q = H.num('f%d%d' % (j, i))
                f.append(q)
        im = H.nd(v, s * ny, s * nx)
        r = H.m(c, 'convolution2d', im)
        low = H.nd(average(H, v, ny, nx, s), ny, nx)
        return shaped(H, r, ny, nx) + [(total(H, H.flat(r)), H.mul(mean(H, f), total(H, kv)))] + list(zip(H.flat(r), H.flat(H.m(c, 're_size_convolve', low, im))))
    return rel


def mirror(v, ny, nx, ax):
    return [v[(ny - 1 - y if ax == 0 else y) * nx + (nx - 1 - x if ax == 1 else x)] for y in range(ny) for x in range(nx)]


def mirrored(make, ny, nx, s, n, ax):
    """mirroring image and kernel mirrors the result: nothing is displaced."""
    def rel(H):
        k, kv = kernel(H, n)
        im = H.img('i', s * ny, s * nx)
        a = make(H, k)
        b = make(H, H.nd(mirror(kv, n, n, ax), n, n))
        r = H.m(a[0], a[1], im)
        q = H.m(b[0], b[1], H.nd(mirror(H.flat(im), s * ny, s * nx, ax), s * ny, s * nx))
        return shaped(H, r, ny, nx) + same(H, q, mirror(H.flat(r), ny, nx, ax))
    return rel


def numba(ny, nx, n, src, out_):
    def rel(H):
        k, kv = kernel(H, n)
        mi, mo = mask(src, nx, ny), mask(out_, nx, ny)
        c = H.new(NC + 'NumbaConvolution', k, bools(H, mi), **({} if out_ == 'all' else {'compute_pixels': bools(H, mo)}))
        im = H.img('i', ny, nx)
        r = H.m(c, 'convolve2d', im)
        return shaped(H, r, ny, nx) + same(H, r, zeroed(direct(H, zeroed(H.flat(im), flat(mi)), ny, nx, kv, n, n), flat(mo)))
    return rel


def subnumba(ny, nx, s, n, src, out_):
    def rel(H):
        k, kv = kernel(H, n)
        mi, mo = mask(src, nx, ny), mask(out_, nx, ny)
        c = H.new(NC + 'SubgridNumbaConvolution', k, s, bools(H, mi), **({} if out_ == 'all' else {'compute_pixels': bools(H, mo)}))
        im = H.img('i', s * ny, s * nx)
        r = H.m(c, 'convolve2d', im)
        v = direct(H, zeroed(H.flat(im), flat(up(mi, s))), s * ny, s * nx, kv, n, n)
        return shaped(H, r, ny, nx) + same(H, r, zeroed(average(H, v, ny, nx, s), flat(mo)))
    return rel


def adaptive_full(ny, nx, s, n):
    """all pixels supersampled with the full kernel: the supersampled convolution."""
    def rel(H):
        k, kv = kernel(H, n)
        c = H.new(AC + 'AdaptiveConvolution', k, s, bools(H, mask('all', nx, ny)))
        im = H.img('i', s * ny, s * nx)
        r = H.m(c, 'convolve2d', im)
        return shaped(H, r, ny, nx) + same(H, r, average(H, direct(H, H.flat(im), s * ny, s * nx, kv, n, n), ny, nx, s))
    return rel


def adaptive_part(ny, nx, s, n, size, src):
    """each pixel is convolved at the resolution selected for it (up to the cut of the kernel): flux of interior pixels is kept."""
    def rel(H):
        k, kv = kernel(H, n)
        m = mask(src, nx, ny)
        c = H.new(AC + 'AdaptiveConvolution', k, s, bools(H, m), size)
        out = []
        for y, x in ((ny // 2, nx // 2), (ny // 2, nx // 2 - 1)):
            v = [Const(0)] * (s * s * ny * nx)
            f = []
            for j in range(s):
                for i in range(s):
                    v[(s * y + j) * s * nx + s * x + i] = q = H.num('f%d%d' % (j, i))
                    f.append(q)
            r = H.m(c, 'convolve2d', H.nd(v, s * ny, s * nx))
            out += shaped(H, r, ny, nx) + [(total(H, H.flat(r)), H.mul(mean(H, f), total(H, kv)))]
        return out
    return rel


def adaptive_none(ny, nx, s, n):
    """no pixel supersampled: convolution with the kernel at the resolution of the image."""
    def rel(H):
        k, kv = kernel(H, n)
        c = H.new(AC + 'AdaptiveConvolution', k, s, bools(H, [[False] * nx for _ in range(ny)]), 1)
        im = H.img('i', s * ny, s * nx)
        low = H.call(KU + 'degrade_kernel', k, s)
        m = low.shape[0]
        return same(H, H.m(c, 'convolve2d', im), direct(H, average(H, H.flat(im), ny, nx, s), ny, nx, H.flat(low), m, m))
    return rel


def gaussians(ws, sig, ny=9, nx=8, s=1):
    """weights are normalised, an interior pixel keeps its flux, the convolution is linear in the image."""
    def rel(H):
        f = [H.num('w%d' % i, positive=True) for i in range(ws)]
        c = H.new(CV + 'MultiGaussianConvolution', H.arr(*[Const(x) for x in sig[:ws]]), H.arr(*f), 1., truncation=2)
        v = [Const(0)] * (ny * nx)
        v[(ny // 2) * nx + nx // 2] = a = H.num('a')
        r = H.m(c, 'convolution2d', H.nd(v, ny, nx))
        flatten = H.m(c, 'convolution2d', H.nd([a] * (ny * nx), ny, nx))
        return shaped(H, r, ny, nx) + [(total(H, H.flat(r)), a)] + same(H, flatten, [a] * (ny * nx))
    return rel


def gaussian_linear(ny=5, nx=4):
    def rel(H):
        f = [H.num('w%d' % i, positive=True) for i in range(2)]
        mk = lambda fr, sg: H.new(CV + 'MultiGaussianConvolution', H.arr(*[Const(x) for x in sg]), H.arr(*fr), .5, truncation=2)
        im = H.img('i', ny, nx)
        r = H.flat(H.m(mk(f, (.4, .6)), 'convolution2d', im))
        a, b = [H.flat(H.m(mk([Const(1.)], (q,)), 'convolution2d', im)) for q in (.4, .6)]
        t = H.op('+', f[0], f[1])
        return [(x, H.op('/', H.op('+', H.mul(f[0], p), H.mul(f[1], q)), t)) for x, p, q in zip(r, a, b)]
    return rel


def gaussian_super(s, ny=3, nx=4):
    """supersampled Gaussian convolution: the same width on the finer grid, then averaged."""
    def rel(H):
        one = H.arr(Const(1.))
        a = H.new(CV + 'MultiGaussianConvolution', H.arr(Const(.5)), one, 1., s, True, truncation=2)
        b = H.new(CV + 'MultiGaussianConvolution', H.arr(Const(.5)), one, 1. / s, truncation=2)
        plain = H.new(CV + 'MultiGaussianConvolution', H.arr(Const(.5)), one, 1., s, False, truncation=2)
        im = H.img('i', s * ny, s * nx)
        low = H.nd(average(H, H.flat(im), ny, nx, s), ny, nx)
        r = H.m(a, 're_size_convolve', low, im)
        p = H.m(plain, 're_size_convolve', low, im)
        return shaped(H, r, ny, nx) + same(H, r, average(H, H.flat(H.m(b, 'convolution2d', im)), ny, nx, s)) + same(H, p, H.flat(H.m(plain, 'convolution2d', low)))
    return rel


# ------------------------------------------------------------------ kernels
def norm_kept(fn, n, *args, **kw):
    def rel(H):
        k, kv = kernel(H, n)
        r = H.call(KU + fn, k, *args, **kw)
        rs = [r] if hasattr(r, 'shape') else H.items(r)
        return [(total(H, [x for q in rs for x in H.flat(q)]), total(H, kv))] + [(Const(q.shape[0] % 2), Const(1)) for q in rs] + same(H, k, kv)
    return rel


def kernel_mirror(fn, n, *args, **kw):
    """mirroring and transposing the kernel mirrors and transposes the result."""
    def rel(H):
        k, kv = kernel(H, n)
        out = []
        fl = lambda r: [r] if hasattr(r, 'shape') else H.items(r)
        r = fl(H.call(KU + fn, k, *args, **kw))
        for ax in (0, 1):
            q = fl(H.call(KU + fn, H.nd(mirror(kv, n, n, ax), n, n), *args, **kw))
            for a, b in zip(r, q):
                out += shaped(H, a, *b.shape) + same(H, b, mirror(H.flat(a), a.shape[0], a.shape[1], ax))
        q = fl(H.call(KU + fn, H.nd([kv[n * x + y] for y in range(n) for x in range(n)], n, n), *args, **kw))
        for a, b in zip(r, q):
            m = a.shape[0]
            f = H.flat(a)
            out += same(H, b, [f[m * x + y] for y in range(m) for x in range(m)])
        return out
    return rel


def degrade(n, s):
    """each low-resolution pixel collects the sub-pixels it covers, sub-pixels on a border are shared."""
    def rel(H):
        k, kv = kernel(H, n)
        r = H.call(KU + 'degrade_kernel', k, s)
        m = r.shape[0]
        out = [Const(0)] * (m * m)

        def cover(p):
            """pixels (and shares) of sub-pixel p: the central sub-pixel is in the middle of the central pixel."""
            d = Fraction(p - (n - 1) // 2, s)       # centre in units of pixels, relative to the centre of the kernel
            lo, hi = d - Fraction(1, 2 * s), d + Fraction(1, 2 * s)
            res = []
            for q in range(m):
                c = q - (m - 1) // 2
                a, b = max(lo, c - Fraction(1, 2)), min(hi, c + Fraction(1, 2))
                if b > a:
                    res.append((q, (b - a) * s))
            return res
        for y in range(n):
            for x in range(n):
                for qy, wy in cover(y):
                    for qx, wx in cover(x):
                        t = H.op('/', H.mul(kv[y * n + x], (wy * wx).numerator), (wy * wx).denominator)
                        out[qy * m + qx] = H.op('+', out[qy * m + qx], t)
        return [(Const(m % 2), Const(1))] + same(H, r, out)
    return rel


def norm(n, m):
    def rel(H):
        k, kv = kernel(H, n, m=m)
        t = total(H, kv)
        return same(H, H.call(KU + 'kernel_norm', k), [H.op('/', v, t) for v in kv]) + same(H, k, kv)
    return rel


def match(n, size):
    def rel(H):
        k, kv = kernel(H, n)
        r = H.call(KU + 'match_kernel_size', k, size)
        d = (size - n) // 2
        want = [kv[(y - d) * n + x - d] if 0 <= y - d < n and 0 <= x - d < n else Const(0) for y in range(size) for x in range(size)]
        return shaped(H, r, size, size) + same(H, r, want) + same(H, k, kv)
    return rel


def homogeneous(fn, n, *args, **kw):
    """scaling the kernel scales the result."""
    def rel(H):
        k, kv = kernel(H, n)
        c = H.num('scale', positive=True)
        a = H.call(KU + fn, k, *args, **kw)
        b = H.call(KU + fn, H.nd([H.mul(c, v) for v in kv], n, n), *args, **kw)
        return same(H, b, [H.mul(c, v) for v in H.flat(a)])
    return rel


def split_exact(n, size, s):
    """inner part at high resolution, the rest at low resolution; nothing counted twice."""
    def rel(H):
        k, kv = kernel(H, n)
        low, high = H.items(H.call(KU + 'split_kernel', k, size, s))
        m = high.shape[0]
        d = (n - m) // 2
        inner = lambda y, x: d <= y < d + m and d <= x < d + m
        hole = H.nd([Const(0) if inner(y, x) else kv[y * n + x] for y in range(n) for x in range(n)], n, n)
        return same(H, high, [kv[(y + d) * n + x + d] for y in range(m) for x in range(m)]) + same(H, low, H.flat(H.call(KU + 'degrade_kernel', hole, s))) + same(H, k, kv)
    return rel


# ------------------------------------------------------------------ PSF
def psf_norm(n, s, norm_):
    def rel(H):
        k, kv = kernel(H, n)
        p = H.new(PS + 'PSF', 'PIXEL', kernel_point_source=k, point_source_supersampling_factor=s, kernel_point_source_normalisation=norm_)
        t = total(H, kv)
        want = Const(1) if norm_ else t
        out = [(total(H, H.flat(H.attr(p, 'kernel_point_source'))), want), (total(H, H.flat(H.attr(p, 'kernel_pixel'))), want)]
        for f in (1, 2, 3, s):
            out.append((total(H, H.flat(H.m(p, 'kernel_point_source_supersampled', f))), want))
        same_ = H.m(p, 'kernel_point_source_supersampled', s)
        out += same(H, same_, [H.op('/', v, t) if norm_ else v for v in kv])
        return out + same(H, k, kv)
    return rel


def psf_history(n, s, hist, norm_=True):
    """the kernel at a requested supersampling does not depend on earlier requests."""
    def rel(H):
        k, kv = kernel(H, n)
        mk = lambda: H.new(PS + 'PSF', 'PIXEL', kernel_point_source=k, point_source_supersampling_factor=s, kernel_point_source_normalisation=norm_)
        p = mk()
        out = []
        for f, c in hist:
            r = H.flat(H.m(p, 'kernel_point_source_supersampled', f, updata_cache=c))
            q = H.flat(H.m(mk(), 'kernel_point_source_supersampled', f))
            out += [(Const(len(r)), Const(len(q)))] + list(zip(r, q))
        return out + list(zip(H.flat(H.attr(p, 'kernel_point_source')), H.flat(H.attr(mk(), 'kernel_point_source'))))
    return rel


def psf_variance(n, s, nv, norm_):
    """the variance map scales with the square of the kernel and is brought to its size."""
    def rel(H):
        k, kv = kernel(H, n)
        w = H.img('v', nv, nv, positive=True)
        wv = H.flat(w)
        p = H.new(PS + 'PSF', 'PIXEL', kernel_point_source=k, point_source_supersampling_factor=s, psf_variance_map=w, kernel_point_source_normalisation=norm_)
        m = H.attr(p, 'kernel_point_source').shape[0]
        t = total(H, kv)
        d = (m - nv) // 2
        r = H.attr(p, 'psf_variance_map')
        want = [wv[(y - d) * nv + x - d] if 0 <= y - d < nv and 0 <= x - d < nv else Const(0) for y in range(m) for x in range(m)]
        return shaped(H, r, m, m) + same(H, r, [H.op('/', v, H.mul(t, t)) if norm_ and not isinstance(v, Const) else v for v in want]) + same(H, w, wv)
    return rel


def psf_gauss(hist):
    """a Gaussian kernel has unit norm and depends on the current pixel size and supersampling only."""
    def rel(H):
        mk = lambda px: H.new(PS + 'PSF', 'GAUSSIAN', fwhm=1., truncation=1, pixel_size=px)
        p = mk(.5)
        px, out = .5, []
        for what, v in hist:
            if what == 'pixel':
                px = v
                H.m(p, 'set_pixel_size', v)
                continue
            r = H.flat(H.m(p, 'kernel_point_source_supersampled', v))
            q = H.flat(H.m(mk(px), 'kernel_point_source_supersampled', v))
            out += [(Const(len(r)), Const(len(q))), (total(H, r), Const(1))] + list(zip(r, q))
        return out
    return rel


# ------------------------------------------------------------------ the image simulated with a PSF
def convolved(cls, nx, ny, s, n, kps, name='all', kind='fft', sup=False, size=None, cks=None):
    """image = PSF * brightness at the chosen resolution, times the area of a pixel."""
    def rel(H):
        P = Plane(H)
        m = mask(name, nx, ny)
        pg = H.new(PG + 'PixelGrid', nx, ny, P.matrix(), P.o[0], P.o[1])
        k, kv = kernel(H, n)
        t = total(H, kv)
        p = H.new(PS + 'PSF', 'PIXEL', kernel_point_source=k, point_source_supersampling_factor=kps)
        kw = {} if name == 'all' else {'flux_evaluate_indexes': bools(H, m)}
        num = H.new(cls, pg, p, supersampling_factor=s, supersampling_convolution=sup, supersampling_kernel_size=size, convolution_type=kind, convolution_kernel_size=cks, **kw)
        im = H.m(num, 're_size_convolve', P.fluxes(H.attr(num, 'coordinates_evaluate')))
        kn = [H.op('/', v, t) for v in kv]
        q = n
        if cks:
            c = cks * (s if sup else 1)
            c += 1 - c % 2
            d = (n - c) // 2
            kn = [kn[(y + d) * n + x + d] for y in range(c) for x in range(c)]
            q = c
        if sup:
            want = average(H, direct(H, expected_high(P, m, s), s * ny, s * nx, kn, q, q), ny, nx, s)
        else:
            want = direct(H, expected_low(P, m, s), ny, nx, kn, q, q)
        if cls.endswith('SubFrame'):
            want = zeroed(want, flat(m))
        return shaped(H, im, ny, nx) + same(H, im, [H.mul(v, P.area()) if not (isinstance(v, Const)) else v for v in want])
    return rel


def run(ctx):
    ctx.explanation = (
        'Convolution classes, kernel operations and the PSF class are evaluated in the value-numbering domain on images and kernels of concrete shape with unknown pixel values; '
        'the results must be the value numbers of the direct centred sum, respectively keep the sum and the centre of the kernel. A discrete Fourier transform is kept as its array, its product is the cyclic convolution.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('shapes of images and kernels, supersampling factors and masks are enumerated (small), pixel values are not')
    ctx.rule('convolution', 'every convolution method is the direct centred sum over image and kernel')
    ctx.rule('adaptive', 'masked and adaptive convolution equal the convolution of the selected pixels')
    ctx.rule('kernel', 'kernel operations keep the norm and the centre of the kernel')
    ctx.rule('psf', 'kernels of a PSF have its norm and do not depend on earlier requests')
    ctx.rule('image', 'the simulated image is the brightness convolved with the PSF')
    R = []
    for kind in ('fft', 'fft_static', 'grid'):
        for ny, nx, ky, kx in ((4, 4, 3, 3), (3, 4, 3, 3), (4, 3, 5, 5), (5, 4, 3, 5), (3, 3, 5, 5), (6, 2, 3, 3)):
            R.append(('convolution', '%s %dx%d kernel %dx%d' % (kind, ny, nx, ky, kx), pixel(kind, ny, nx, ky, kx)))
        R.append(('convolution', '%s transposed kernel' % kind, transposed(kind)))
        for ny, nx, s, n in ((3, 2, 2, 3), (2, 3, 3, 5), (2, 2, 2, 5)):
            R.append(('convolution', '%s %dx%d supersampled %d kernel %d' % (kind, ny, nx, s, n), subgrid(kind, ny, nx, s, n)))
        for s, n, size in ((2, 5, 1), (2, 7, 3), (3, 9, 1), (3, 5, 1), (2, 5, 3), (3, 5, 3)):
            R.append(('convolution', '%s supersampled %d kernel %d split at %d keeps flux' % (kind, s, n, size), split_flux(kind, s, n, size)))
    for s, n, size in ((2, 7, 3), (3, 7, 1)):
        for ax in (0, 1):
            R.append(('convolution', 'supersampled %d kernel %d split at %d mirrored in axis %d' % (s, n, size, ax),
                      mirrored(lambda H, k, s=s, size=size: (H.new(CV + 'SubgridKernelConvolution', k, s, size, 'grid'), 'convolution2d'), 3, 2, s, n, ax)))
            R.append(('adaptive', 'adaptive %d kernel %d cut at %d mirrored in axis %d' % (s, n, size, ax),
                      mirrored(lambda H, k, s=s, size=size: (H.new(AC + 'AdaptiveConvolution', k, s, bools(H, mask('all', 2, 3)), size), 'convolve2d'), 3, 2, s, n, ax)))
    for n, m in ((5, 3), (7, 3), (3, 3), (5, 1)):
        R.append(('kernel', 'cut %d to %d' % (n, m), cut(n, m)))
    for ny, nx, n in ((3, 4, 3), (4, 3, 5), (4, 4, 3)):
        for a, b in (('all', 'all'), ('scattered', 'all'), ('all', 'corner'), ('corner', 'two rows'), ('one pixel', 'scattered')):
            R.append(('adaptive', 'NumbaConvolution %dx%d kernel %d from %s to %s' % (ny, nx, n, a, b), numba(ny, nx, n, a, b)))
    for ny, nx, s, n in ((3, 3, 2, 3), (2, 3, 3, 5), (3, 2, 2, 5), (3, 3, 3, 3), (3, 3, 2, 7)):
        for a, b in (('all', 'all'), ('scattered', 'all'), ('all', 'corner'), ('corner', 'scattered')):
            R.append(('adaptive', 'SubgridNumbaConvolution %dx%d supersampled %d kernel %d from %s to %s' % (ny, nx, s, n, a, b), subnumba(ny, nx, s, n, a, b)))
    for ny, nx, s, n in ((3, 3, 3, 3), (2, 3, 3, 9), (2, 3, 3, 5), (3, 3, 2, 5), (3, 3, 2, 3)):
        R.append(('adaptive', 'AdaptiveConvolution of all pixels %dx%d supersampled %d kernel %d' % (ny, nx, s, n), adaptive_full(ny, nx, s, n)))
        R.append(('adaptive', 'AdaptiveConvolution of no pixel %dx%d supersampled %d kernel %d' % (ny, nx, s, n), adaptive_none(ny, nx, s, n)))
    for s, n, size in ((2, 5, 1), (3, 9, 1), (2, 7, 3), (3, 5, 1)):
        R.append(('adaptive', 'AdaptiveConvolution of some pixels supersampled %d kernel %d cut at %d keeps flux' % (s, n, size), adaptive_part(6, 6, s, n, size, 'scattered')))
    for w in (1, 2):
        R.append(('convolution', '%d Gaussians keep flux' % w, gaussians(w, (.5, .9))))
    R.append(('convolution', 'Gaussians are weighted', gaussian_linear()))
    for s in (2, 3):
        R.append(('convolution', 'Gaussian supersampled %d' % s, gaussian_super(s)))
    for n, s in ((3, 2), (5, 2), (7, 2), (9, 2), (5, 4), (7, 4), (3, 3), (5, 3), (7, 3), (9, 3), (11, 3), (5, 5), (7, 5), (9, 5), (11, 5), (9, 7), (17, 5)):
        R.append(('kernel', 'degrade %d by %d' % (n, s), degrade(n, s)))
        R.append(('kernel', 'degrade %d by %d keeps the norm' % (n, s), norm_kept('degrade_kernel', n, s)))
    for n, size, s in ((5, 1, 2), (7, 3, 2), (9, 1, 3), (9, 3, 3), (7, 1, 3), (5, 3, 3), (11, 1, 5), (9, 1, 4)):
        R.append(('kernel', 'split %d at %d supersampled %d' % (n, size, s), split_exact(n, size, s)))
        R.append(('kernel', 'split %d at %d supersampled %d keeps the norm' % (n, size, s), norm_kept('split_kernel', n, size, s)))
        R.append(('kernel', 'split %d at %d supersampled %d mirrored' % (n, size, s), kernel_mirror('split_kernel', n, size, s)))
    for n, s in ((3, 3), (5, 3), (7, 3), (9, 3), (3, 2), (5, 2)):
        R.append(('kernel', 'kernel_average_pixel %d by %d keeps the norm' % (n, s), norm_kept('kernel_average_pixel', n, s)))
        if s % 2:
            R.append(('kernel', 'kernel_average_pixel %d by %d mirrored' % (n, s), kernel_mirror('kernel_average_pixel', n, s)))
    for n, s in ((3, 2), (3, 3), (5, 2), (5, 3)):
        R.append(('kernel', 'subgrid_kernel %d by %d keeps the norm' % (n, s), norm_kept('subgrid_kernel', n, s, odd=True, num_iter=2)))
        R.append(('kernel', 'subgrid_kernel %d by %d mirrored' % (n, s), kernel_mirror('subgrid_kernel', n, s, odd=True, num_iter=2)))
        R.append(('kernel', 'subgrid_kernel %d by %d scales' % (n, s), homogeneous('subgrid_kernel', n, s, odd=True, num_iter=2)))
    for n, s in ((3, 3), (5, 3)):
        R.append(('kernel', 'pixel_kernel %d by %d mirrored' % (n, s), kernel_mirror('pixel_kernel', n, subgrid_res=s)))
    R.append(('kernel', 'kernel_norm 3x3', norm(3, 3)))
    R.append(('kernel', 'kernel_norm 2x4', norm(2, 4)))
    for n, m in ((3, 5), (5, 3), (3, 3), (3, 7), (7, 3)):
        R.append(('kernel', 'match_kernel_size %d to %d' % (n, m), match(n, m)))
    for n, s, f in ((3, 1, True), (3, 1, False), (5, 2, True), (5, 2, False), (5, 3, True), (5, 3, False)):
        R.append(('psf', 'norm of a %d kernel supersampled %d%s' % (n, s, '' if f else ' without normalisation'), psf_norm(n, s, f)))
        for h in (((s, True),), ((2, True), (3, True), (s, True)), ((3, False), (2, True), (3, True)), ((1, True), (3, True), (1, True), (2, False), (s, False), (3, True))):
            R.append(('psf', 'history %s of a %d kernel supersampled %d%s' % (h, n, s, '' if f else ' without normalisation'), psf_history(n, s, h, f)))
        for nv in (3, 5):
            R.append(('psf', 'variance map %d of a %d kernel supersampled %d%s' % (nv, n, s, '' if f else ' without normalisation'), psf_variance(n, s, nv, f)))
    for h in ((('get', 1),), (('get', 2), ('get', 1)), (('get', 1), ('pixel', .25), ('get', 1)), (('get', 2), ('pixel', .3), ('get', 2), ('get', 1)), (('get', 2), ('get', 3), ('get', 2))):
        R.append(('psf', 'Gaussian history %s' % (h,), psf_gauss(h)))
    for cls, nm in ((NU + 'Numerics', 'Numerics'), (SF + 'NumericsSubFrame', 'NumericsSubFrame')):
        for nx, ny, s, n, kps, kw in ((3, 2, 1, 3, 1, {}), (4, 3, 2, 3, 1, {}), (3, 3, 1, 5, 1, dict(kind='fft_static')), (3, 3, 1, 5, 1, dict(cks=3)), (2, 3, 2, 5, 2, dict(sup=True)),
                                      (3, 2, 2, 5, 2, dict(sup=True, kind='fft_static', cks=1)), (3, 2, 3, 5, 3, dict(sup=True, kind='grid'))):
            R.append(('image', '%s %dx%d supersampled %d kernel %d supersampled %d %s' % (nm, ny, nx, s, n, kps, kw or ''), convolved(cls, nx, ny, s, n, kps, **kw)))
        R.append(('image', '%s masked' % nm, convolved(cls, 4, 4, 1, 3, 1, name='corner')))
        R.append(('image', '%s masked and supersampled' % nm, convolved(cls, 4, 4, 2, 3, 2, name='corner', sup=True)))
    decide(ctx, R, nd=True, n=3)
    ctx.min_ok('convolution', 10)
    ctx.min_ok('kernel', 20)
    ctx.min_ok('psf', 5)
