"""C17 multi-band models: each band is the image model of the components it selects; bands add up."""
from ..values import *
from ..mlrel import decide
from .c11 import same
from .c10 import band_model, total_likelihood, joint
from . import c10

CI = 'lenstronomy.Util.class_creator:create_class_instances'


def created(what, band=None, all_models=False):
    """the classes of a band have the selected models, each with its own settings."""
    def rel(H):
        ix = [[2, 0], [1, 2]]
        sel = list(range(3)) if band is None or all_models else ix[band]
        a = {}
        if band is not None:
            a['band_index'] = band
            a['index_%s_list' % what] = H.list([H.list(q) for q in ix])
        if all_models:
            a['all_models'] = True
        pick = lambda xs: [xs[i] for i in sel]
        x, y = H.num('x'), H.num('y')
        cosmo = H.cosmology()
        if what == 'lens_model':
            f = [H.native(lambda args, kw, i=i: Tup([H.each(lambda *v: H.fn('f%s%d' % (c, i), *v), *args) for c in 'xy'])) for i in range(3)]
            s = [H.dict(custom_class=q) for q in f]
            names, z = ['TABULATED_DEFLECTIONS'] * 3, [.5, .7, .3]
            kw = lambda ks: H.list([H.dict(center_x=H.num('cx%d' % k), center_y=H.num('cy%d' % k)) for k in ks])
            out = []
            for mp in (False, True):
                b = dict(multi_plane=True, lens_redshift_list=H.list(z), z_source=2., cosmo=cosmo, observed_convention_index=H.list([2, 1])) if mp else {}
                c = dict(multi_plane=True, lens_redshift_list=H.list(pick(z)), z_source=2., cosmo=cosmo, observed_convention_index=H.list([j for j, k in enumerate(sel) if k in (1, 2)])) if mp else {}
                one = H.new(c10.LM, H.list(pick(names)), profile_kwargs_list=H.list(pick(s)), **c)
                C = H.items(H.call(CI, lens_model_list=H.list(names), lens_profile_kwargs_list=H.list(s), point_source_model_list=H.list(['LENSED_POSITION']), **b, **a))
                out += same(H, H.m(C[0], 'ray_shooting', x, y, kw(sel)), H.items(H.m(one, 'ray_shooting', x, y, kw(sel))))
                p = H.list([H.dict(ra_image=H.arr(x), dec_image=H.arr(y))])
                X, Y = H.items(H.m(C[3], 'source_position', p, kw(sel)))
                out += list(zip([H.items(X)[0], H.items(Y)[0]], H.items(H.m(one, 'ray_shooting', x, y, kw(sel)))))
            return out
        if what in ('source_light_model', 'lens_light_model'):
            n = [2, 3, 4]
            s = [H.dict(n_comp=k) for k in n]
            names = ['MGE_SET'] * 3
            b = dict(source_deflection_scaling_list=H.list([1, .5, .25]), source_redshift_list=H.list([1., 2., 3.])) if what == 'source_light_model' else {}
            C = H.items(H.call(CI, **{what + '_list': H.list(names), what.replace('model', 'profile_kwargs') + '_list': H.list(s)}, **b, **a))
            L = C[1 if what == 'source_light_model' else 2]
            kw = H.list([H.dict(sigma_min=1, sigma_width=1, center_x=0, center_y=0, amp=H.arr(*[1] * n[k])) for k in sel])
            out = same(H, H.list(H.items(H.m(L, 'num_param_linear_list', kw))), [Const(n[k]) for k in sel])
            if b:
                out += same(H, H.list(H.items(H.attr(L, 'deflection_scaling_list'))), [Const([1, .5, .25][k]) for k in sel])
                out += same(H, H.list(H.items(H.attr(L, 'redshift_list'))), [Const([1., 2., 3.][k]) for k in sel])
            return out
        names = ['UNLENSED', 'LENSED_POSITION', 'LENSED_POSITION']
        z, fixed = [None, 1., 1.5], [False, True, False]
        lens = dict(lens_model_list=H.list(['SHEAR', 'FLEXION']), z_lens=.5, z_source=2., z_source_convention=2., cosmo=cosmo)
        kl = H.list([H.dict(gamma1=H.num('g'), gamma2=H.num('h')), H.dict(**{'g%d' % i: H.num('f%d' % i) for i in (1, 2, 3, 4)})])
        C = H.items(H.call(CI, point_source_model_list=H.list(names), point_source_redshift_list=H.list(z), fixed_magnification_list=H.list(fixed), **lens, **a))
        P = H.new(c10.PO, H.list(pick(names)), lens_model=H.new(c10.LM, lens.pop('lens_model_list'), **lens), redshift_list=H.list(pick(z)), fixed_magnification_list=H.list(pick(fixed)))
        kp = H.list([H.dict(ra_image=H.arr(H.num('x%d' % k)), dec_image=H.arr(H.num('y%d' % k)), source_amp=H.num('s%d' % k), point_amp=H.arr(H.num('a%d' % k))) for k in sel])
        g, w = [[H.items(q) for q in H.items(H.m(o, 'source_position', kp, kl))] + [[H.flat(q)[0] for q in H.items(H.m(o, 'image_amplitude', kp, kl))]] for o in (C[3], P)]
        return [(u[0] if isinstance(u, list) else u, v[0] if isinstance(v, list) else v) for p, q in zip(g, w) for u, v in zip(map(H.flat, p), map(H.flat, q))]
    return rel


ML, JL, JB = c10.ML, c10.JL, c10.JB


def residuals(cls, compute, err=False):
    """normalized residuals of a subset of bands are those of the models of these bands."""
    def rel(H):
        B = c10.Bands(H, select=False, small=True, nps=0, src=['GAUSSIAN'], light=['GAUSSIAN'], noise='map', m=('two rows', 'all'))
        I = H.new(cls, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), compute_bool=H.list(compute))
        on = [b for b in range(2) if compute[b]]
        models = [H.img('m%d' % b, B.shapes[b][1], B.shapes[b][0]) for b in range(2)]
        given = [models[b] for b in on] if cls != ML else [models[b] if compute[b] else Const(None) for b in range(2)]
        got = H.items(H.m(I, 'reduced_residuals', H.list(given)))
        out = [(Const(len(got)), Const(len(on)))]
        for g, b in zip(got, on):
            mk = [x for r in c10.mask(B.m[b], *B.shapes[b]) for x in r]
            out += same(H, g, [H.op('/', H.op('-', d, m), H.np('sqrt', H.mul(n, n))) if k else Const(0) for d, m, n, k in zip(H.flat(B.data[b]), H.flat(models[b]), H.flat(B.noise[b]), mk)])
        return out
    return rel


def displaced(cls, compute=None):
    """model errors of jointly solved bands are those of the displaced point sources."""
    def rel(H):
        B = c10.Bands(H, select=False, nps=1, src=[], light=[], noise='map', m=('all', 'all'), psf=5, variance=True, shapes=[(7, 6), (8, 6)])
        x, y = B.P[0].at(3, 3)
        B.kpv[0]['ra_image'], B.kpv[0]['dec_image'] = [x], [y]
        B.P[1].o = B.P[0].o
        B.P[1].t = B.P[0].t
        I = H.new(cls, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), compute_bool=Const(None) if compute is None else H.list(compute))
        on = [b for b in range(2) if compute is None or compute[b]]
        x1, y1 = B.P[0].at(4, 3)
        sp = lambda: H.dict(delta_x_image=H.list([H.op('-', x1, x)]), delta_y_image=H.list([H.op('-', y1, y)]))
        a = B.args()
        _, errs, _, _ = H.items(H.m(I, 'image_linear_solve', *a[:5], sp()))
        errs = H.items(errs)
        out = [(Const(len(errs)), Const(len(on)))] if cls != ML else []
        for j, b in enumerate(on):
            w = B.args(b)
            _, e = H.items(H.m(B.single(b), 'error_response', w[0], w[3], sp()))
            out += c10.alike(H, errs[j if cls != ML else b], e)
        return out
    return rel


def positive(cls, sign):
    """the flux check applies to the amplitudes of the solution."""
    def rel(H):
        H.M.run.generic = True

        def band(nx, ny):
            d = [Const(sign if i == nx + 1 else 0) for i in range(nx * ny)]
            k = H.nd([Const(int(i == 4)) for i in range(9)], 3, 3)
            return H.list([H.dict(image_data=H.nd(d, ny, nx), noise_map=H.nd([Const(1)] * (nx * ny), ny, nx), transform_pix2angle=H.nd([Const(v) for v in (1, 0, 0, 1)], 2, 2), ra_at_xy_0=0, dec_at_xy_0=0),
                           H.dict(psf_type='PIXEL', kernel_point_source=k, kernel_point_source_normalisation=False), H.dict()])
        I = H.new(cls, H.list([band(4, 3), band(3, 3)]), H.dict(point_source_model_list=H.list(['UNLENSED'])))
        kp = H.list([H.dict(ra_image=H.list([Const(1)]), dec_image=H.list([Const(1)]), point_amp=H.list([Const(-sign)]))])
        l, p = H.items(H.m(I, 'likelihood_data_given_model', H.list([]), H.list([]), H.list([]), kp, check_positive_flux=True))
        return [(l, Const(0 if sign > 0 else -10 ** 5))]
    return rel


def offset(b, what, before=False, cls='SB'):
    """a band is evaluated in its own, displaced and rotated, pixel frame."""
    def rel(H):
        B = c10.Bands(H, nps=0, **({} if what == 'image' else dict(select=False, src=['GAUSSIAN'], light=['GAUSSIAN'], small=True, m=('all', 'all'))))
        mv = [[(H.num('%s%d%d' % (k, i, t)) if k != 'phi' else H.num('%s%d%d' % (k, i, t), angle=True)) for k in ('ra', 'dec')] for t in (0, 1) for i in range(2)]
        off = lambda t: H.list([H.dict(ra_shift=mv[2 * t + i][0], dec_shift=mv[2 * t + i][1]) for i in range(2)])
        sp = lambda t: H.dict(kwargs_offsets=off(t))
        if cls == 'SB':
            I = H.new(c10.SB, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), band_index=b)
        else:
            I = H.new(cls, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), compute_bool=H.list([b == 0, b == 1]))
        a = lambda t: B.args()[:5] + [sp(t)]
        if before:
            H.m(I, 'image' if cls == 'SB' else 'image_linear_solve', *a(1))
        o = [B.P[b].o[0], B.P[b].o[1]]
        B.P[b].o = [H.op('+', o[0], mv[b][0]), H.op('+', o[1], mv[b][1])]
        one = B.single(b)
        if what == 'image':
            return c10.alike(H, H.m(I, 'image', *a(0)), H.m(one, 'image', *B.args(b)))
        if what == 'likelihood':
            l, _ = H.items(H.m(I, 'likelihood_data_given_model', *a(0)))
            w, _ = H.items(H.m(one, 'likelihood_data_given_model', *B.args(b)))
            return [(l, w)]
    return rel


MR = 'lenstronomy.Analysis.image_reconstruction:MultiBandImageReconstruction'


def reconstruction(kind, compute=None):
    """reconstructed bands hold the models, residuals and amplitudes of their own band."""
    def rel(H):
        jl = kind == 'joint-linear'
        B = c10.Bands(H, small=True, nps=0, src=['GAUSSIAN'], light=['GAUSSIAN'], m=('all', 'all'), select=False)
        par = lambda: H.dict(kwargs_lens=B.args()[0], kwargs_source=B.args()[1], kwargs_lens_light=B.args()[2], kwargs_ps=B.args()[3])
        R = H.new(MR, B.bands(), H.dict(**B.model), par(), multi_band_type=kind, kwargs_likelihood=H.dict(image_likelihood_mask_list=B.masks(), **({'bands_compute': H.list(compute)} if compute else {})), verbose=False)
        on = [b for b in range(2) if compute is None or compute[b]]
        if jl:
            I = H.new(JL, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), compute_bool=Const(None) if compute is None else H.list(compute))
            models, _, _, p = H.items(H.m(I, 'image_linear_solve', *B.args()[:4], inv_bool=True))
            sols = {b: (m, p) for b, m in zip(on, H.items(models))}
        else:
            sols = {}
            for b in on:
                m, _, _, p = H.items(H.m(B.single(b), 'image_linear_solve', *B.args(b)[:4], inv_bool=True))
                sols[b] = m, p
        L = H.items(H.attr(R, 'model_band_list'))
        out = [(Const(len(L)), Const(2))]
        for b in on:
            m, p = sols[b]
            p = H.flat(p)
            out += c10.alike(H, H.attr(L[b], 'model'), m)
            k = H.attr(L[b], 'kwargs_model')
            out += [(c10.item(H, H.items(c10.item(H, k, 'kwargs_source'))[0], 'amp'), p[0]), (c10.item(H, H.items(c10.item(H, k, 'kwargs_lens_light'))[0], 'amp'), p[1])]
            out += same(H, H.attr(L[b], 'norm_residuals'), [H.op('/', H.op('-', d, q), H.np('sqrt', H.mul(n, n))) for d, q, n in zip(H.flat(B.data[b]), H.flat(m), H.flat(B.noise[b]))])
        return out
    return rel


def run(ctx):
    ctx.explanation = (
        'Multi-band models of two bands with their own pixel frame, PSF, noise, mask and selection of models are evaluated in the value-numbering domain and compared with image models built by hand from '
        'the selected components.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('two bands of a few pixels; selections and masks are enumerated, pixel values, parameters, noise and coordinate systems are not')
    ctx.assumptions.append('matrices of the linear inversion are well conditioned')
    ctx.rule('selection', 'classes of a band are made of its selected models with their own settings')
    ctx.rule('band', 'a band is the image model of the components it selects')
    ctx.rule('independent', 'likelihoods of independently solved bands add up')
    ctx.rule('joint', 'jointly solved bands share the amplitudes solving the normal equations of all bands')
    ctx.rule('offset', 'a band is evaluated in its own displaced frame')
    ctx.rule('subset', 'bands not computed are left out everywhere')
    R = []
    for w in ('lens_model', 'source_light_model', 'lens_light_model', 'point_source_model'):
        for b, al in ((None, False), (0, False), (1, False), (1, True)):
            R.append(('selection', '%s band %s%s' % (w, b, ' all models' if al else ''), created(w, b, al)))
    for b in (0, 1):
        for s in (True, False):
            for w, kw in (('image', {}), ('response', {}), ('variance', dict(noise='p')), ('fixed likelihood', {}), ('likelihood', dict(m=('all', 'all'), src=['GAUSSIAN'], light=['GAUSSIAN'], nps=0, small=True))):
                if w == 'likelihood' and s:
                    continue
                kw = kw if s else dict(kw, nps=0)
                R.append(('band', '%s of band %d%s' % (w, b, ' selected' if s else ''), band_model(b, w, select=s, **kw)))
            for w in ('image', 'extinction'):
                R.append(('band', '%s of band %d%s with extinction' % (w, b, ' selected' if s else ''), band_model(b, w, select=s, ext=True, **({} if s else {'nps': 0}))))
    small = dict(select=False, small=True, nps=0, src=['GAUSSIAN'], light=['GAUSSIAN'], m=('all', 'all'))
    for c in (None, [True, False], [False, True]):
        R.append(('independent', 'compute %s' % c, total_likelihood(c, **small)))
        R.append(('joint', 'compute %s' % c, joint(compute=c, m=('two rows', 'all'))))
        for k in ('multi-linear', 'joint-linear'):
            R.append(('subset', 'reconstruction %s %s' % (k, c), reconstruction(k, c)))
        if c:
            for cls in (ML, JL, JB):
                R.append(('subset', 'residuals %s %s' % (cls.split(':')[1], c), residuals(cls, c)))
    R.append(('joint', 'with background', joint(True, m=('two rows', 'all'))))
    for cls in (JL, JB):
        R.append(('joint', 'displaced point sources %s' % cls.split(':')[1], displaced(cls)))
    for s in (1, -1):
        R.append(('joint', 'positive flux %d' % s, positive(JL, s)))
    for b in (0, 1):
        for before in (False, True):
            R.append(('offset', 'image of band %d%s' % (b, ' again' if before else ''), offset(b, 'image', before)))
            R.append(('offset', 'likelihood of band %d%s' % (b, ' again' if before else ''), offset(b, 'likelihood', before)))
        for cls in (ML, JL):
            R.append(('offset', '%s of band %d again' % (cls.split(':')[1], b), offset(b, 'likelihood', True, cls)))
    decide(ctx, R, nd=True, n=3)
    for r, k in (('selection', 12), ('band', 10), ('independent', 2), ('joint', 3), ('offset', 6), ('subset', 5)):
        ctx.min_ok(r, k)
