"""C44 coordinate and parameter transformations invert each other."""
import itertools
from ..values import *
from ..mlrel import decide

PU = 'lenstronomy.Util.param_util:'
UT = 'lenstronomy.Util.util:'
DU = 'lenstronomy.Util.data_util:'
SU = 'lenstronomy.Util.sampling_util:'
CR = 'lenstronomy.Util.coolest_read_util:'
CO = 'lenstronomy.Data.coord_transforms:'
PG = 'lenstronomy.Data.pixel_grid:'
PR = 'lenstronomy.LensModel.Profiles.'


def plane(H):
    """a point and a centre such that distances and angles exist."""
    H.M.run.polar('x', 'y', 'radius', 'x0', 'y0')
    return H.num('x'), H.num('y'), H.num('x0'), H.num('y0')


def ell(H, a='e1', b='e2'):
    H.M.run.ellipticity(a, b)
    return H.num(a), H.num(b)


def polar(H):
    x, y, x0, y0 = plane(H)
    r, phi = H.items(H.call(PU + 'cart2polar', x, y, x0, y0))
    return zip(H.items(H.call(PU + 'polar2cart', r, phi, H.arr(x0, y0))), (x, y))


def cartesian(H):
    r, phi = H.num('r', True), H.num('phi', angle=True)
    x0, y0 = H.num('x0'), H.num('y0')
    x, y = H.items(H.call(PU + 'polar2cart', r, phi, H.arr(x0, y0)))
    r2, phi2 = H.items(H.call(PU + 'cart2polar', x, y, x0, y0))
    return [(r2, r)] + [(H.np(f, phi2), H.np(f, phi)) for f in ('cos', 'sin')]


def shear(H):
    a, b = ell(H, 'gamma1', 'gamma2')
    phi, g = H.items(H.call(PU + 'shear_cartesian2polar', a, b))
    return zip(H.items(H.call(PU + 'shear_polar2cartesian', phi, g)), (a, b))


def shear_back(H):
    phi, g = H.num('phi', angle=True), H.num('gamma', True)
    a, b = H.items(H.call(PU + 'shear_polar2cartesian', phi, g))
    p, g2 = H.items(H.call(PU + 'shear_cartesian2polar', a, b))
    return [(g2, g)] + [(H.np(f, H.mul(2, p)), H.np(f, H.mul(2, phi))) for f in ('cos', 'sin')]


def ellipticity(H):
    a, b = ell(H)
    phi, q = H.items(H.call(PU + 'ellipticity2phi_q', a, b))
    return zip(H.items(H.call(PU + 'phi_q2_ellipticity', phi, q)), (a, b))


def ellipticity_meaning(H):
    """e1 + i e2 = (1 - q) / (1 + q) exp(2 i phi)."""
    a, b = ell(H)
    phi, q = H.items(H.call(PU + 'ellipticity2phi_q', a, b))
    m = H.op('/', H.op('-', 1, q), H.op('+', 1, q))
    return [(H.mul(m, H.np(f, H.mul(2, phi))), e) for f, e in (('cos', a), ('sin', b))]


def sq(H, *a):
    s = H.mul(a[0], a[0])
    for v in a[1:]:
        s = H.op('+', s, H.mul(v, v))
    return s


def isodensity(fn, kind):
    """x'^2 + y'^2 is the squared elliptical radius: q u^2 + v^2 / q (product average) or 2 (q^2 u^2 + v^2) / (1 + q^2) (square average)
    with (u, v) along the axes of the ellipse."""
    def rel(H):
        a, b = ell(H)
        x, y, x0, y0 = [H.num(n) for n in ('x', 'y', 'x0', 'y0')]
        xt, yt = H.items(H.call(PU + fn, x, y, a, b, x0, y0))
        if fn.startswith('elliptical'):
            xt, yt = H.op('-', xt, x0), H.op('-', yt, y0)
        phi, q = H.items(H.call(PU + 'ellipticity2phi_q', a, b))
        dx, dy = H.op('-', x, x0), H.op('-', y, y0)
        c, s = H.np('cos', phi), H.np('sin', phi)
        u = H.op('+', H.mul(c, dx), H.mul(s, dy))
        v = H.op('-', H.mul(c, dy), H.mul(s, dx))
        if kind == 'product':
            want = H.op('+', H.mul(q, u, u), H.op('/', H.mul(v, v), q))
        else:
            want = H.op('/', H.mul(2, H.op('+', H.mul(q, q, u, u), H.mul(v, v))), H.op('+', 1, H.mul(q, q)))
        return [(sq(H, xt, yt), want)]
    return rel


def rotate(H):
    x, y, a = H.num('x'), H.num('y'), H.num('angle', angle=True)
    u, v = H.items(H.call(UT + 'rotate', x, y, a))
    w = H.items(H.call(UT + 'rotate', u, v, H.mul(-1, a)))
    return list(zip(w, (x, y))) + [(sq(H, u, v), sq(H, x, y)), (u, H.op('+', H.mul(x, H.np('cos', a)), H.mul(y, H.np('sin', a))))]


def inverse1(f, g, positive=True, extra=()):
    def rel(H):
        x = H.num('x', positive)
        e = [H.num(n, p) for n, p in extra]
        return [(H.call(g, H.call(f, x, *e), *e), x)]
    return rel


def matrix(H, tag='t'):
    return [[H.num('%s%d%d' % (tag, i, j)) for j in range(2)] for i in range(2)]


def coordinates(H, cls=CO + 'Coordinates'):
    return H.new(cls, matrix(H), H.num('ra0'), H.num('dec0'))


OPS = {'shift': lambda H, c, i: H.m(c, 'shift_coordinate_system', H.num('dx%d' % i), H.num('dy%d' % i)),
       'shift pixels': lambda H, c, i: H.m(c, 'shift_coordinate_system', H.num('dx%d' % i), H.num('dy%d' % i), True),
       'update shift': lambda H, c, i: H.m(c, 'update_coord_transform', H.num('ra%d' % i), H.num('de%d' % i)),
       'update ra': lambda H, c, i: H.m(c, 'update_coord_transform', H.num('ra%d' % i)),
       'update dec': lambda H, c, i: H.m(c, 'update_coord_transform', dec_shift=H.num('de%d' % i)),
       'rotate': lambda H, c, i: H.m(c, 'update_coord_transform', phi_rot=H.num('rot%d' % i, angle=True)),
       'rotate and shift': lambda H, c, i: H.m(c, 'update_coord_transform', H.num('ra%d' % i), H.num('de%d' % i), H.num('rot%d' % i, angle=True))}


def apply(H, c, ops):
    for i, o in enumerate(ops):
        OPS[o](H, c, i)


def pix_roundtrip(ops):
    def rel(H):
        c = coordinates(H)
        apply(H, c, ops)
        x, y = H.num('x'), H.num('y')
        ra, dec = H.items(H.m(c, 'map_pix2coord', x, y))
        out = list(zip(H.items(H.m(c, 'map_coord2pix', ra, dec)), (x, y)))
        x0, y0 = H.items(H.attr(c, 'xy_at_radec_0'))
        out += [(v, Const(0)) for v in H.items(H.m(c, 'map_pix2coord', x0, y0))]
        ra0, dec0 = H.items(H.attr(c, 'radec_at_xy_0'))
        out += list(zip(H.items(H.m(c, 'map_pix2coord', 0, 0)), (ra0, dec0)))
        A, B = H.items(H.attr(c, 'transform_pix2angle')), H.items(H.attr(c, 'transform_angle2pix'))
        for i in range(2):
            for j in range(2):
                s = H.op('+', H.mul(H.items(A[i])[0], H.items(B[0])[j]), H.mul(H.items(A[i])[1], H.items(B[1])[j]))
                out.append((s, Const(int(i == j))))
        return out
    return rel


def pix_grid(cls, ops):
    def rel(H):
        c = coordinates(H, cls)
        apply(H, c, ops)
        ra, dec = H.items(H.m(c, 'coordinate_grid', 3, 2))
        fr, fd = H.flat(ra), H.flat(dec)
        out = []
        for k in range(6):
            x, y = H.items(H.m(c, 'map_pix2coord', k % 3, k // 3))
            out += [(fr[k], x), (fd[k], y)]
        return out
    return rel


def update_absolute(H):
    """updates are relative to the coordinate system at construction, not cumulative; components not named are kept."""
    c, d = coordinates(H), coordinates(H)
    a = [H.num(n) for n in ('a1', 'a2', 'b1', 'b2')]
    r1, r2 = H.num('r1', angle=True), H.num('r2', angle=True)
    H.m(c, 'update_coord_transform', a[0], a[1], r1)
    H.m(c, 'update_coord_transform', a[2], a[3], r2)
    H.m(d, 'update_coord_transform', phi_rot=r2)
    H.m(d, 'update_coord_transform', a[2])
    H.m(d, 'update_coord_transform', dec_shift=a[3])
    x, y = H.num('x'), H.num('y')
    return list(zip(H.items(H.m(c, 'map_pix2coord', x, y)), H.items(H.m(d, 'map_pix2coord', x, y)))) + \
        list(zip(H.items(H.m(c, 'map_coord2pix', x, y)), H.items(H.m(d, 'map_coord2pix', x, y))))


def modulus(H):
    m, d = H.num('M'), H.num('d', True)
    return [(H.call(DU + 'absolute2apparent_magnitude', m, d), H.op('+', H.mul(5, H.op('-', H.np('log10', d), 1)), m))]


def curved_arc(cls, f, g):
    """arc -> deflector -> arc; compared by the eigen-stretches and by the deflector."""
    def rel(H):
        obj = H.get(PR + cls)
        x0, y0 = H.num('x0'), H.num('y0')
        c = H.num('c', True)        # images outside the Einstein radius: stretch above one
        H.M.run.below_one.add('c')
        tan, rad, cur, phi = H.op('/', 1, H.op('-', 1, c)), H.num('rad', True), H.num('cur', True), H.num('phi', angle=True)
        d = H.items(H.call(H.it.getattr(obj, f, H.S, None), tan, rad, cur, phi, x0, y0))
        t, r, c, p = H.items(H.call(H.it.getattr(obj, g, H.S, None), *(d + [x0, y0])))
        return [(c, cur), (t, tan), (r, rad)] + [(H.np(k, p), H.np(k, phi)) for k in ('cos', 'sin')]
    return rel


def angle_coolest(H):
    """position angle East of North (degrees) -> angle from the x-axis pointing West: 90 deg - phi up to half turns."""
    v = H.num('phi')
    d = H.op('-', H.op('/', H.mul(180, H.call(CR + 'degree_coolest_to_radian_lenstronomy', v)), H.pi), H.op('-', 90, v))
    return [(H.mul(d, H.op('-', d, 180), H.op('+', d, 180)), Const(0))]


def run(ctx):
    ctx.explanation = (
        'Transformations are composed with their inverses in the value-numbering domain (symbolic points, centres, angles, matrices); every composition must be the identity, '
        'for coordinate systems after every short history of shifts, updates and rotations.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.rule('parameters', 'parameter conversions invert each other')
    ctx.rule('ellipse', 'elliptical coordinates reproduce the elliptical radius of the documented convention')
    ctx.rule('coordinates', 'pixel and sky coordinates invert each other after any history of updates')
    ctx.rule('grid', 'pixel grids are the images of the pixel indices')
    ctx.rule('units', 'unit conversions invert each other')
    rels = [('parameters', 'cart2polar -> polar2cart', polar), ('parameters', 'polar2cart -> cart2polar', cartesian),
            ('parameters', 'shear_cartesian2polar -> shear_polar2cartesian', shear), ('parameters', 'shear_polar2cartesian -> shear_cartesian2polar', shear_back),
            ('parameters', 'ellipticity2phi_q -> phi_q2_ellipticity', ellipticity), ('parameters', 'ellipticity2phi_q convention', ellipticity_meaning),
            ('ellipse', 'transform_e1e2_product_average', isodensity('transform_e1e2_product_average', 'product')),
            ('ellipse', 'transform_e1e2_product_average_old', isodensity('transform_e1e2_product_average_old', 'product')),
            ('ellipse', 'elliptical_distortion_product_average', isodensity('elliptical_distortion_product_average', 'product')),
            ('ellipse', 'transform_e1e2_square_average', isodensity('transform_e1e2_square_average', 'square')),
            ('parameters', 'rotate', rotate),
            ('units', 'fwhm2sigma -> sigma2fwhm', inverse1(UT + 'fwhm2sigma', UT + 'sigma2fwhm')),
            ('units', 'magnitude2cps -> cps2magnitude', inverse1(DU + 'magnitude2cps', DU + 'cps2magnitude', None, [('zero', None)])),
            ('units', 'cps2magnitude -> magnitude2cps', inverse1(DU + 'cps2magnitude', DU + 'magnitude2cps', True, [('zero', None)])),
            ('units', 'adu2electrons -> electrons2adu', inverse1(DU + 'adu2electrons', DU + 'electrons2adu', True, [('gain', True)])),
            ('units', 'unit2uniform -> uniform2unit', inverse1(SU + 'unit2uniform', SU + 'uniform2unit', True, [('low', None), ('high', None)]))]
    rels += [('units', 'absolute2apparent_magnitude', modulus),
             ('parameters', 'CurvedArcSPP.stretch2spp -> spp2stretch', curved_arc('curved_arc_spp:CurvedArcSPP', 'stretch2spp', 'spp2stretch')),
             ('parameters', 'CurvedArcSISMST.stretch2sis_mst -> sis_mst2stretch', curved_arc('curved_arc_sis_mst:CurvedArcSISMST', 'stretch2sis_mst', 'sis_mst2stretch')),
             ('parameters', 'degree_coolest_to_radian_lenstronomy', angle_coolest)]
    hist = [()] + [h for n in (1, 2) for h in itertools.product(sorted(OPS), repeat=n)]
    for h in hist:
        rels.append(('coordinates', 'Coordinates after %s' % (', '.join(h) or 'construction'), pix_roundtrip(h)))
    rels.append(('coordinates', 'Coordinates updates are absolute', update_absolute))
    grids = []
    for cls in ('Coordinates', 'Coordinates1D'):
        for h in [()] + [(o,) for o in sorted(OPS)]:
            grids.append(('grid', '%s.coordinate_grid after %s' % (cls, ', '.join(h) or 'construction'), pix_grid(CO + cls, h)))
    decide(ctx, rels)
    decide(ctx, grids, nd=True)
    ctx.min_ok('parameters', 7)
    ctx.min_ok('ellipse', 3)
    ctx.min_ok('coordinates', 40)
    ctx.min_ok('units', 5)
