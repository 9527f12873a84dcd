"""C11 image numerics: brightness is evaluated at, and placed in, the pixels it belongs to."""
from fractions import Fraction
from ..values import *
from ..mlrel import decide

GR = 'lenstronomy.ImSim.Numerics.grid:'
NU = 'lenstronomy.ImSim.Numerics.numerics:'
SF = 'lenstronomy.ImSim.Numerics.numerics_subframe:'
PI = 'lenstronomy.ImSim.Numerics.partial_image:'
PR = 'lenstronomy.ImSim.Numerics.point_source_rendering:'
PG = 'lenstronomy.Data.pixel_grid:'
PS = 'lenstronomy.Data.psf:'
IU = 'lenstronomy.Util.image_util:'
UT = 'lenstronomy.Util.util:'
IM = 'lenstronomy.ImSim.image_model:'

MASKS = {'all': lambda x, y, nx, ny: True, 'one pixel': lambda x, y, nx, ny: (x, y) == (1, 0), 'corner': lambda x, y, nx, ny: x >= nx - 2 and y <= 1,
         'two rows': lambda x, y, nx, ny: y >= ny - 2, 'scattered': lambda x, y, nx, ny: (2 * x + 3 * y) % 4 < 2}


def mask(name, nx, ny):
    f = MASKS[name]
    return [[f(x, y, nx, ny) for x in range(nx)] for y in range(ny)]


def bools(H, m):
    return H.nd([Const(bool(v)) for r in m for v in r], len(m), len(m[0]))


class Plane:
    """a general linear pixel coordinate system and a generic brightness on the sky."""

    def __init__(self, H, tag=''):
        self.H = H
        H.M.run.generic = True
        self.t = [[H.num('%st%d%d' % (tag, i, j)) for j in range(2)] for i in range(2)]
        self.o = [H.num(tag + 'ra0'), H.num(tag + 'dec0')]
        self.c = [H.num('%sc%d' % (tag, i)) for i in range(5)]

    def matrix(self):
        return self.H.lift(self.t)

    def at(self, x, y):
        """sky position of pixel coordinates."""
        H = self.H
        return [H.op('+', H.op('+', H.mul(self.t[i][0], x), H.mul(self.t[i][1], y)), self.o[i]) for i in range(2)]

    def flux(self, ra, dec):
        H, c = self.H, self.c
        v = H.op('+', c[0], H.mul(c[1], ra))
        for k in (H.mul(c[2], dec), H.mul(c[3], ra, dec), H.mul(c[4], ra, ra, ra), H.mul(dec, dec)):
            v = H.op('+', v, k)
        return v

    def sub(self, X, Y, s):
        """brightness at the centre of sub-pixel (X, Y)."""
        f = lambda k: self.H.op("/", 2 * k + 1 - s, 2 * s)
        return self.flux(*self.at(f(X), f(Y)))

    def fluxes(self, coords):
        H = self.H
        return self.flux(*H.items(coords))

    def area(self):
        H, t = self.H, self.t
        d = H.op('-', H.mul(t[0][0], t[1][1]), H.mul(t[0][1], t[1][0]))
        return H.np('abs', d)


def mean(H, xs):
    s = xs[0]
    for x in xs[1:]:
        s = H.op('+', s, x)
    return H.op('/', s, len(xs))


def expected_low(P, m, s, high=None):
    """pixel values: mean over the sub-pixels (or value at the centre where not supersampled), zero outside of the mask."""
    out = []
    for y, row in enumerate(m):
        for x, on in enumerate(row):
            k = s if high is None or high[y][x] else 1
            out.append(mean(P.H, [P.sub(k * x + i, k * y + j, k) for j in range(k) for i in range(k)]) if on else Const(0))
    return out


def expected_high(P, m, s):
    ny, nx = len(m), len(m[0])
    return [P.sub(X, Y, s) if m[Y // s][X // s] else Const(0) for Y in range(s * ny) for X in range(s * nx)]


def same(H, got, want):
    g = H.flat(got)
    if len(g) != len(want):
        return [(Const(len(g)), Const(len(want)))]
    return list(zip(g, want))


def shaped(H, got, *sh):
    return [(Const(v), Const(w)) for v, w in zip(got.shape, sh)] if hasattr(got, 'shape') and len(got.shape) == len(sh) else [(Const(0), Const(1))]


def regular(nx, ny, s, name):
    def rel(H):
        P = Plane(H)
        m = mask(name, nx, ny)
        kw = {} if name == 'all' else {'flux_evaluate_indexes': bools(H, m)}
        g = H.new(GR + 'RegularGrid', nx, ny, P.matrix(), P.o[0], P.o[1], s, **kw)
        low, high = H.items(H.m(g, 'flux_array2image_low_high', P.fluxes(H.attr(g, 'coordinates_evaluate'))))
        out = shaped(H, low, ny, nx) + same(H, low, expected_low(P, m, s))
        if s > 1:
            out += shaped(H, high, s * ny, s * nx) + same(H, high, expected_high(P, m, s))
        return out
    return rel


def adaptive(nx, ny, s, name, sup):
    def rel(H):
        P = Plane(H)
        m, hi = mask(name, nx, ny), mask(sup, nx, ny)
        kw = {} if name == 'all' else {'flux_evaluate_indexes': bools(H, m)}
        g = H.new(GR + 'AdaptiveGrid', nx, ny, P.matrix(), P.o[0], P.o[1], bools(H, hi), s, **kw)
        low, high = H.items(H.m(g, 'flux_array2image_low_high', P.fluxes(H.attr(g, 'coordinates_evaluate'))))
        both = [[a and b for a, b in zip(r, q)] for r, q in zip(m, hi)]
        return shaped(H, low, ny, nx) + same(H, low, expected_low(P, m, s, hi)) + shaped(H, high, s * ny, s * nx) + same(H, high, expected_high(P, both, s))
    return rel


def numerics(cls, nx, ny, s, name, sup=None):
    """flux per pixel without PSF: mean brightness times pixel area, zero outside of the evaluated pixels."""
    def rel(H):
        P = Plane(H)
        m = mask(name, nx, ny)
        pg = H.new(PG + 'PixelGrid', nx, ny, P.matrix(), P.o[0], P.o[1])
        kw = {} if name == 'all' else {'flux_evaluate_indexes': bools(H, m)}
        hi = None
        if sup:
            hi = mask(sup, nx, ny)
            kw.update(compute_mode='adaptive', supersampled_indexes=bools(H, hi))
        n = H.new(cls, pg, H.new(PS + 'PSF', 'NONE'), supersampling_factor=s, **kw)
        im = H.m(n, 're_size_convolve', P.fluxes(H.attr(n, 'coordinates_evaluate')))
        return shaped(H, im, ny, nx) + same(H, im, [H.mul(v, P.area()) for v in expected_low(P, m, s, hi)])
    return rel


def partial(name, nx=3, ny=2):
    def rel(H):
        m = mask(name, nx, ny)
        p = H.new(PI + 'PartialImage', bools(H, m))
        im = H.img('i', ny, nx)
        a = H.m(p, 'partial_array', im)
        back = H.m(p, 'image_from_partial', a)
        v = H.flat(im)
        on = [b for r in m for b in r]
        want = [x if b else Const(0) for x, b in zip(v, on)]
        idx = H.attr(p, 'index_array')
        k = 0
        wi = []
        for b in on:
            wi.append(Const(k if b else -1))
            k += b
        return same(H, a, [x for x, b in zip(v, on) if b]) + shaped(H, back, ny, nx) + same(H, back, want) + same(H, H.m(p, 'array_from_partial', a), want) + \
            [(H.attr(p, 'num_partial'), Const(sum(on)))] + shaped(H, idx, ny, nx) + same(H, idx, wi)
    return rel


def resize(f, ny=4, nx=6):
    def rel(H):
        im = H.img('i', ny, nx)
        v = H.flat(im)
        r = H.call(IU + 're_size', im, f)
        want = [mean(H, [v[(f * y + j) * nx + f * x + i] for j in range(f) for i in range(f)]) for y in range(ny // f) for x in range(nx // f)]
        return shaped(H, r, ny // f, nx // f) + same(H, r, want)
    return rel


def layer_int(x0, y0, ny=4, nx=5, ky=3, kx=3):
    """the kernel is added centred on the pixel, clipped at the border of the image; the input image is kept."""
    def rel(H):
        im, k = H.img('i', ny, nx), H.img('k', ky, kx)
        v, kv = H.flat(im), H.flat(k)
        r = H.call(IU + 'add_layer2image_int', im, x0, y0, k)
        want = []
        for y in range(ny):
            for x in range(nx):
                j, i = y - y0 + ky // 2, x - x0 + kx // 2
                want.append(H.op('+', v[y * nx + x], kv[j * kx + i]) if 0 <= j < ky and 0 <= i < kx else v[y * nx + x])
        return shaped(H, r, ny, nx) + same(H, r, want) + same(H, im, v)
    return rel


def layer(x0, y0, ny=7, nx=8, ky=3, kx=3):
    """sub-pixel positions: total flux kept, centroid displaced by exactly the position (kernel with empty rim, linear interpolation)."""
    def rel(H):
        n = 5
        core = H.img('k', 3, 3)
        c = H.flat(core)
        k = [[Const(0)] * n for _ in range(n)]
        for j in range(3):
            for i in range(3):
                k[j + 1][i + 1] = c[3 * j + i]
        r = H.call(IU + 'add_layer2image', H.nd([Const(0)] * (ny * nx), ny, nx), float(x0), float(y0), H.nd([v for row in k for v in row], n, n))
        g = H.flat(r)
        f = total(H, c)
        mx = total(H, [H.mul(c[3 * j + i], i - 1) for j in range(3) for i in range(3)])
        my = total(H, [H.mul(c[3 * j + i], j - 1) for j in range(3) for i in range(3)])
        return shaped(H, r, ny, nx) + [(total(H, g), f), (total(H, [H.mul(v, q % nx) for q, v in enumerate(g)]), H.op('+', mx, H.mul(f, float(x0)))),
                                       (total(H, [H.mul(v, q // nx) for q, v in enumerate(g)]), H.op('+', my, H.mul(f, float(y0))))]
    return rel


def total(H, xs):
    s = xs[0]
    for x in xs[1:]:
        s = H.op('+', s, x)
    return s


def psf(H, kind, n=3, s=1, name='k', **kw):
    """PSF instance and its normalised kernel at the resolution it is given."""
    if kind == 'NONE':
        return H.new(PS + 'PSF', 'NONE'), [Const(int(i == 4)) for i in range(9)], 3
    k = H.img(name, n, n, positive=True)
    v = H.flat(k)
    t = total(H, v)
    return H.new(PS + 'PSF', 'PIXEL', kernel_point_source=k, point_source_supersampling_factor=s, **kw), [H.op('/', x, t) for x in v], n


def placed(H, nx, ny, items, kern, n):
    """sum of amplitude times kernel centred at (X, Y), clipped at the border."""
    out = [Const(0)] * (nx * ny)
    for (X, Y), a in items:
        for j in range(n):
            for i in range(n):
                x, y = X + i - n // 2, Y + j - n // 2
                if 0 <= x < nx and 0 <= y < ny:
                    out[y * nx + x] = H.op('+', out[y * nx + x], H.mul(a, kern[j * n + i]))
    return out


def binned(H, v, nx, ny, s):
    return [total(H, [v[(s * y + j) * nx * s + s * x + i] for j in range(s) for i in range(s)]) for y in range(ny) for x in range(nx)]


def point_sources(kind, s, where, nx=4, ny=3, cls=NU + 'Numerics', unconvolved=False, name=None, **kw):
    """flux of point sources: amplitude times the PSF centred at the position, summed over the sources."""
    def rel(H):
        P = Plane(H)
        pg = H.new(PG + 'PixelGrid', nx, ny, P.matrix(), P.o[0], P.o[1])
        p, kern, n = psf(H, kind, 3 if s == 1 else 5, s)
        k2 = {} if name is None else {'flux_evaluate_indexes': bools(H, mask(name, nx, ny))}
        num = H.new(cls, pg, p, point_source_supersampling_factor=s, **k2)
        f = lambda k: H.op('/', 2 * k + 1 - s, 2 * s)
        pos = [P.at(f(X), f(Y)) for X, Y in where]
        amp = [H.num('amp%d' % i) for i in range(len(where))]
        im = H.m(num, 'point_source_rendering', H.arr(*[q[0] for q in pos]), H.arr(*[q[1] for q in pos]), H.arr(*amp), unconvolved=unconvolved)
        if unconvolved:
            kern, n = [Const(int(i == 4)) for i in range(9)], 3
        big = placed(H, nx * s, ny * s, zip(where, amp), kern, n)
        return shaped(H, im, ny, nx) + same(H, im, binned(H, big, nx, ny, s))
    return rel


def run(ctx):
    ctx.explanation = (
        'Pixel numerics are evaluated in the value-numbering domain on images of concrete shape with unknown pixel values, a general linear coordinate system and a generic brightness; '
        'every pixel of the result must be the value number of the brightness at the sky position that pixel covers.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('image shapes, supersampling factors and masks are enumerated (small), pixel values and coordinate systems are not')
    ctx.rule('grid', 'regular and adaptive grids evaluate and fill exactly the selected (sub-)pixels')
    ctx.rule('numerics', 'the image without PSF is the mean brightness of each selected pixel times its area')
    ctx.rule('partial', 'partial images keep the selected pixels and their positions')
    ctx.rule('resize', 'binning averages the sub-pixels of each pixel')
    ctx.rule('layer', 'kernels are added centred at the requested position, clipped at the border')
    ctx.rule('point source', 'a point source contributes its amplitude times the PSF centred at its position')
    rels = []
    for nx, ny, s in ((3, 3, 1), (3, 2, 1), (3, 3, 2), (2, 3, 2), (3, 2, 3), (3, 3, 3)):
        for m in MASKS:
            rels.append(('grid', 'RegularGrid %dx%d supersampling %d mask %s' % (nx, ny, s, m), regular(nx, ny, s, m)))
    for nx, ny, s in ((3, 3, 2), (3, 2, 2), (3, 3, 3)):
        for m, h in (('all', 'scattered'), ('scattered', 'corner'), ('corner', 'scattered'), ('two rows', 'all'), ('all', 'one pixel')):
            rels.append(('grid', 'AdaptiveGrid %dx%d supersampling %d mask %s supersampled %s' % (nx, ny, s, m, h), adaptive(nx, ny, s, m, h)))
    for cls, n in ((NU + 'Numerics', 'Numerics'), (SF + 'NumericsSubFrame', 'NumericsSubFrame')):
        for nx, ny, s, m, h in ((3, 3, 1, 'all', None), (4, 4, 1, 'corner', None), (4, 4, 2, 'corner', None), (4, 3, 2, 'all', None), (4, 3, 1, 'two rows', None), (4, 4, 2, 'two rows', None),
                                (4, 4, 2, 'corner', 'scattered'), (4, 3, 2, 'all', 'corner'), (3, 3, 3, 'scattered', 'all')):
            rels.append(('numerics', '%s %dx%d supersampling %d mask %s%s' % (n, nx, ny, s, m, ' adaptive ' + h if h else ''), numerics(cls, nx, ny, s, m, h)))
    for m in MASKS:
        rels.append(('partial', 'PartialImage mask %s' % m, partial(m)))
    for f in (1, 2):
        rels.append(('resize', 're_size factor %d' % f, resize(f)))
    rels.append(('resize', 're_size factor 3', resize(3, 3, 6)))
    for x0, y0 in ((2, 1), (0, 0), (4, 3), (4, 0), (0, 3), (-1, 2), (5, 1), (2, 4), (2, -1), (7, 1), (-5, -5), (1, 9)):
        rels.append(('layer', 'add_layer2image_int at (%d, %d)' % (x0, y0), layer_int(x0, y0)))
    rels.append(('layer', 'add_layer2image_int rectangular kernel', layer_int(1, 2, 5, 4, 5, 3)))
    rels.append(('layer', 'add_layer2image_int kernel larger than the image', layer_int(1, 1, 3, 3, 7, 7)))
    for x0, y0 in ((Fraction(13, 4), Fraction(3)), (Fraction(3), Fraction(14, 5)), (Fraction(19, 5), Fraction(11, 4)), (Fraction(33, 10), Fraction(7, 2))):
        rels.append(('layer', 'add_layer2image at (%s, %s)' % (x0, y0), layer(x0, y0)))
    W1, W2, W3 = ((1, 1), (2, 1)), ((0, 2), (3, 0)), ((4, 2), (-1, 1), (1, 1))
    for i, w in enumerate((W1, W2, W3)):
        rels.append(('point source', 'point sources %s' % (w,), point_sources('PIXEL', 1, w)))
        rels.append(('point source', 'point sources %s unconvolved' % (w,), point_sources('PIXEL', 1, w, unconvolved=True)))
    rels.append(('point source', 'point sources without PSF', point_sources('NONE', 1, W1)))
    rels.append(('point source', 'point sources in a sub-frame', point_sources('PIXEL', 1, W1, 4, 4, SF + 'NumericsSubFrame', name='corner')))
    for s in (2, 3):
        rels.append(('point source', 'point sources with PSF supersampled %d times' % s, point_sources('PIXEL', s, ((3, 4), (2 * s, 1)))))
        rels.append(('point source', 'point sources with PSF supersampled %d times, sub-frame' % s, point_sources('PIXEL', s, ((3, 4), (2 * s, 1)), cls=SF + 'NumericsSubFrame')))
        rels.append(('point source', 'point sources unconvolved supersampled %d times' % s, point_sources('PIXEL', s, ((3, 4), (2 * s, 1)), unconvolved=True)))
    decide(ctx, rels, nd=True, n=4)
    ctx.min_ok('grid', 30)
