"""C14 likelihoods: every term is the log-probability of its data given the model, and terms add up."""
import ast
import os
from ..values import *
from ..mlrel import decide
from .c11 import same
from .c13 import Sky
from . import c10

TD = 'lenstronomy.Sampling.Likelihoods.time_delay_likelihood:TimeDelayLikelihood'
FR = 'lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood:FluxRatioLikelihood'
PL = 'lenstronomy.Sampling.Likelihoods.position_likelihood:PositionLikelihood'
PR = 'lenstronomy.Sampling.Likelihoods.prior_likelihood:PriorLikelihood'
LK = 'lenstronomy.Sampling.likelihood:Likelihood'
DAYS = 'lenstronomy.Util.constants:delay_arcsec2days'


def gauss(H, d, s):
    """-d^T C^-1 d / 2 for a list of standard deviations or a covariance matrix of up to two values."""
    if not d:
        return Const(0)
    if not isinstance(s[0], list):
        t = Const(0)
        for a, b in zip(d, s):
            r = H.op('/', a, b)
            t = H.op('-', t, H.op('/', H.mul(r, r), 2))
        return t
    if len(d) == 1:
        return H.op('/', H.op('/', H.mul(d[0], d[0]), s[0][0]), -2)
    (a, b), (c, e) = s
    det = H.op('-', H.mul(a, e), H.mul(b, c))
    num = H.op('-', H.op('+', H.mul(e, d[0], d[0]), H.mul(a, d[1], d[1])), H.mul(H.op('+', b, c), d[0], d[1]))
    return H.op('/', H.op('/', num, det), -2)


def spread(H, tag, n, cov=False):
    if not cov:
        return [H.num('%s.s%d' % (tag, i), positive=True) for i in range(n)]
    off = H.num('%s.c' % tag)
    return [[H.num('%s.v%d' % (tag, i), positive=True) if i == j else off for j in range(n)] for i in range(n)]


def pick(s, on):
    ix = [i for i, b in enumerate(on) if b]
    return [[s[i][j] for j in ix] for i in ix] if isinstance(s[0], list) else [s[i] for i in ix]


def lift(H, v):
    return H.nd([x for r in v for x in r], len(v), len(v)) if isinstance(v[0], list) else H.arr(*v)


def plus(H, xs):
    t = Const(0)
    for x in xs:
        t = H.op('+', t, x)
    return t


class Delays:
    def __init__(self, H, kinds=('LENSED_POSITION', 'UNLENSED'), n=(3, 3), cov=False, on=None, bimodal=False, C=None, **kw):
        self.H = H
        self.C = C or Sky(H, kinds, n=n, **kw)
        self.on = on
        self.bimodal = bimodal
        k = len(kinds)
        self.m = [[H.num('t%d.%d' % (i, j)) for j in range(n[i if not bimodal else 0] - 1)] for i in range(k if not bimodal else 2)]
        self.s = [spread(H, 't%d' % i, len(m), cov) for i, m in enumerate(self.m)]
        self.ddt = H.num('D_dt', positive=True)
        one = k == 1 and not bimodal
        a = dict(time_delays_measured=H.arr(*self.m[0]) if one else H.list([H.arr(*m) for m in self.m]), time_delays_uncertainties=lift(H, self.s[0]) if one else H.list([lift(H, s) for s in self.s]))
        if on is not None:
            a['time_delay_measurement_bool_list'] = H.list([b if isinstance(b, bool) else H.list(b) for b in on])
        if bimodal:
            a['bimodal_measurement'] = True
        self.T = H.new(TD, lens_model_class=self.C.lens, point_source_class=self.C.P, **a)

    def value(self):
        H = self.H
        return H.m(self.T, 'logL', self.C.kl, self.C.kw(), H.dict(D_dt=self.ddt))

    def model(self, i):
        H, C = self.H, self.C
        L = C.fresh(C.zof(i))
        x, y = C.positions(i)
        d = H.mul(self.ddt, H.attr(L, 'ddt_scaling'))
        t = [H.call(DAYS, H.m(L, 'fermat_potential', a, b, C.kl), d) for a, b in zip(x, y)]
        return [H.op('-', v, t[0]) for v in t[1:]]

    def want(self):
        H = self.H
        out = []
        for i in range(len(self.C.kinds)):
            t = self.model(i)
            on = self.on[i] if self.on is not None else True
            on = on if isinstance(on, list) else [on] * len(t)
            if not any(on):
                continue
            one = lambda q: gauss(H, [H.op('-', t[j], self.m[q][j]) for j in range(len(t)) if on[j]], pick(self.s[q], on))
            if self.bimodal:
                out.append(H.np('log', H.op('+', H.np('exp', one(0)), H.np('exp', one(1)))))
            else:
                out.append(one(i))
        return plus(H, out)

    def count(self):
        n = 0
        for i in range(len(self.C.kinds)):
            on = self.on[i] if self.on is not None else True
            n += sum(on) if isinstance(on, list) else len(self.m[i]) * on
        return n


def delays(twice=False, **kw):
    """time-delay likelihood: Gaussian in the delays of the model relative to the first image."""
    def rel(H):
        D = Delays(H, **kw)
        if twice:
            D.value()
        return [(D.value(), D.want())]
    return rel


def number(**kw):
    def rel(H):
        D = Delays(H, **kw)
        return [(H.attr(D.T, 'num_data'), Const(D.count()))]
    return rel


def fluxes(cov=False, on=None, twice=False, n=(3, 3), kinds=('LENSED_POSITION', 'UNLENSED'), **kw):
    """flux ratio likelihood: Gaussian in the magnification ratios (logarithmic for covariances)."""
    def rel(H):
        C = Sky(H, kinds, n=n, **kw)
        r = [[H.num('r%d.%d' % (i, j), positive=True) for j in range(n[i] - 1)] for i in range(len(kinds))]
        s = [spread(H, 'r%d' % i, len(m), cov) for i, m in enumerate(r)]
        one = len(kinds) == 1
        a = dict(flux_ratios=H.arr(*r[0]) if one else H.list([H.arr(*m) for m in r]), flux_ratio_errors=lift(H, s[0]) if one else H.list([lift(H, q) for q in s]))
        if on:
            a['flux_ratio_measurement_bool'] = H.list(on)
        if C.z:
            a['point_source_redshift_list'] = H.list(C.z)
        F = H.new(FR, C.lens, num_point_sources=len(kinds), **a)
        X, Y = H.items(H.m(C.P, 'image_position', C.kw(), C.kl))
        go = lambda: H.m(F, 'logL', X, Y, C.kl, Const(None))
        if twice:
            go()
        out = []
        num = 0
        for i in range(len(kinds)):
            if on and not on[i]:
                continue
            m = C.mags(i)
            q = [H.op('/', v, m[0]) for v in m[1:]]
            num += len(q)
            d = [H.op('-', H.np('log', a), H.np('log', b)) for a, b in zip(q, r[i])] if cov else [H.op('-', a, b) for a, b in zip(q, r[i])]
            out.append(gauss(H, d, s[i]))
        return [(go(), plus(H, out)), (H.attr(F, 'num_data'), Const(num))]
    return rel


def source_terms(H, C, sigma, bound=False):
    out = []
    for i, k in enumerate(C.kinds):
        if k != 'LENSED_POSITION':
            continue
        L = C.fresh(C.zof(i))
        x, y = C.positions(i)
        src = []
        for j in range(len(x)):
            src.append([H.m(L, 'ray_shooting', x[j], y[j], C.kl, **C.frame(i, j))])
        src = [H.items(v[0]) for v in src]
        mean = [H.op('/', plus(H, [s[c] for s in src]), len(src)) for c in (0, 1)]
        for j in range(len(x)):
            fxx, fxy, fyx, fyy = H.items(H.m(L, 'hessian', x[j], y[j], C.kl, **C.frame(i, j)))
            a, b, c, d = H.op('-', 1, fxx), H.op('-', 0, fxy), H.op('-', 0, fyx), H.op('-', 1, fyy)
            ss = H.mul(sigma, sigma)
            S = [[H.mul(ss, H.op('+', H.mul(a, a), H.mul(b, b))), H.mul(ss, H.op('+', H.mul(a, c), H.mul(b, d)))], [None, H.mul(ss, H.op('+', H.mul(c, c), H.mul(d, d)))]]
            S[1][0] = S[0][1]
            out.append(gauss(H, [H.op('-', mean[0], src[j][0]), H.op('-', mean[1], src[j][1])], S))
    return plus(H, out)


def position(term, twice=False, kinds=('LENSED_POSITION', 'UNLENSED'), n=(3, 2), default=False, **kw):
    """position likelihoods: Gaussian in displacements, image positions or source positions."""
    def rel(H):
        C = Sky(H, kinds, n=n, **kw)
        s = H.num('sigma', positive=True)
        a = {}
        special = Const(None)
        want = Const(0)
        if term == 'astrometry':
            N = sum(n)
            dx, dy = [[H.num('%s%d' % (c, i)) for i in range(N)] for c in ('dx', 'dy')]
            special = H.dict(delta_x_image=H.arr(*dx), delta_y_image=H.arr(*dy))
            a = dict(astrometric_likelihood=True, image_position_uncertainty=s, source_position_likelihood=False)
            want = gauss(H, dx + dy, [s] * (2 * N))
        elif term == 'images':
            X = [[[H.num('o%s%d.%d' % (c, i, j)) for j in range(n[i])] for i in range(len(kinds))] for c in 'xy']
            a = dict(image_position_likelihood=True, image_position_uncertainty=s, source_position_likelihood=False, ra_image_list=H.list([H.arr(*v) for v in X[0]]), dec_image_list=H.list([H.arr(*v) for v in X[1]]))
            d = []
            for i in range(len(kinds)):
                for c, P in zip((0, 1), C.positions(i)):
                    d += [H.op('-', p, o) for p, o in zip(P, X[c][i])]
            want = gauss(H, d, [s] * len(d))
        elif term == 'sources':
            a = dict(source_position_sigma=s)
            if not default:
                a['source_position_likelihood'] = True
            want = source_terms(H, C, s)
        P = H.new(PL, C.P, **a)
        go = lambda: H.m(P, 'logL', C.kl, C.kw(), special)
        if twice:
            go()
        out = [(go(), want)]
        if term == 'images':
            out.append((H.attr(P, 'num_data'), Const(2 * sum(n))))
        if term == 'sources' and default:
            off = H.new(PL, C.P, source_position_likelihood=False)
            out.append((H.m(off, 'logL', C.kl, C.kw(), special), Const(0)))
        return out
    return rel


GROUPS = ('lens', 'source', 'lens_light', 'ps', 'special', 'extinction')


def group(H, g):
    """parameters of two models of a group, or of the single set of special parameters."""
    return [{'a': H.num('%s.a%d' % (g, i), positive=True), 'b': H.num('%s.b%d' % (g, i), positive=True)} for i in range(2)]


def prior(gs, kind=''):
    """a Gaussian prior adds -(p-mean)^2/(2 sigma^2) of its own parameter; log-normal ones are the same function for all groups."""
    def rel(H):
        vals = {g: group(H, g) for g in GROUPS}
        a, want = {}, Const(0)
        for g in gs:
            rows = []
            for q, (i, p) in enumerate(((1, 'a'), (0, 'b'))):
                if g == 'special':
                    i = 0
                m, s = H.num('%s.m%d' % (g, q)), H.num('%s.s%d' % (g, q), positive=True)
                rows.append(H.list(([] if g == 'special' else [i]) + [p, m, s]))
                v = vals[g][i][p]
                if kind == '_lognormal':
                    one = H.new(PR, prior_lens_lognormal=H.list([H.list([0, 'theta_E', m, s])]))
                    want = H.op('+', want, H.m(one, 'logL', kwargs_lens=H.list([H.dict(theta_E=v)])))
                else:
                    want = H.op('+', want, gauss(H, [H.op('-', v, m)], [s]))
            a['prior_%s%s' % (g, kind)] = H.list(rows)
        P = H.new(PR, **a)
        kw = {'kwargs_' + g: H.dict(**vals[g][0]) if g == 'special' else H.list([H.dict(**d) for d in vals[g]]) for g in GROUPS}
        return [(H.m(P, 'logL', **kw), want)]
    return rel


TERMS = ('custom', 'prior', 'image', 'delays', 'fluxes', 'astrometry')


class Total:
    """two bands, two point sources and every kind of data; switches select the likelihood terms."""

    def __init__(self, H, on, linear=False):
        H.M.run.generic = True
        self.H, self.on, self.linear = H, on, linear
        B = self.B = c10.Bands(H, select=False, small=True, src=['GAUSSIAN'], light=['GAUSSIAN'], m=('all' if linear else 'two rows', 'all'))
        for b in (0, 1):
            x, y = zip(B.P[0].at(1 + b, 1), B.P[0].at(b, 2 * b))
            B.kpv[b] = {'ra_image': list(x), 'dec_image': list(y), 'point_amp': [H.num('p%d.%d' % (b, j)) for j in (0, 1)]}
        B.kl = [self.flexion(''), {'%s' % k: H.num(k) for k in ('f_xx', 'f_yy', 'f_xy', 'f_yx', 'ra_0', 'dec_0')}]
        B.model['lens_model_list'] = H.list(['FLEXION', 'HESSIAN'])
        self.limits = ([0.] * 2, [1.] * 2)
        self.special = {'D_dt': H.num('D_dt', positive=True)}
        if 'astrometry' in on:
            step = [[H.op('-', a, b) for a, b in zip(B.P[0].at(*s), B.P[0].at(0, 0))] for s in ((1, 0), (0, 1), (-1, 1), (0, -1))]
            self.special.update(delta_x_image=[s[0] for s in step], delta_y_image=[s[1] for s in step])
        self.t = [[H.num('t%d' % b)] for b in (0, 1)], [[H.num('ts%d' % b, positive=True)] for b in (0, 1)]
        self.r = [[H.num('r%d' % b)] for b in (0, 1)], [[H.num('rs%d' % b, positive=True)] for b in (0, 1)]
        self.sigma = H.num('sigma', positive=True)
        self.pr = [H.num('pm'), H.num('ps', positive=True)]
        self.add = Const(-.75)
        self.cosmo = H.cosmology()
        self.redshift = 2.

    def flexion(self, tag):
        return {'g%d' % i: self.H.num('%sg%d' % (tag, i)) for i in (1, 2, 3, 4)}

    def model(self):
        H, B = self.H, self.B
        return H.dict(**dict(B.model, point_source_model_list=H.list(['LENSED_POSITION', 'UNLENSED']), z_lens=.5, z_source=self.redshift, z_source_convention=2., cosmo=self.cosmo))

    def kwargs(self):
        H, B = self.H, self.B
        a = B.args()
        return dict(kwargs_lens=a[0], kwargs_source=a[1], kwargs_lens_light=a[2], kwargs_ps=a[3], kwargs_special=H.dict(**self.special), kwargs_extinction=Const(None), kwargs_tracer_source=Const(None))

    def bands(self):
        return self.H.list(self.H.items(self.B.bands())[:1])

    def masks(self):
        return self.H.list(self.H.items(self.B.masks())[:1])

    def data(self):
        H = self.H
        q = lambda v: H.list([H.arr(*x) for x in v])
        return H.dict(multi_band_list=self.bands(), multi_band_type='multi-linear', time_delays_measured=q(self.t[0]), time_delays_uncertainties=q(self.t[1]), flux_ratios=q(self.r[0]), flux_ratio_errors=q(self.r[1]))

    def new(self, update=None, bounds=None):
        H = self.H
        n = len(self.limits[0])
        par = H.stub({'linear_solver': Const(self.linear), 'param_limits': H.native(lambda a, k: Tup([H.arr(*self.limits[0]), H.arr(*self.limits[1])])), 'args2kwargs': H.native(lambda a, k: H.dict(**self.kwargs())),
                      'update_kwargs_model': H.native(lambda a, k: Tup([update(), Const(True)]) if update else Tup([self.model(), Const(False)])), 'num_param': H.native(lambda a, k: Tup([Const(n), H.list(['p'] * n)]))}, 'Param')
        a = {}
        if 'custom' in self.on:
            a['custom_logL_addition'] = H.native(lambda x, k: self.add)
        if 'prior' in self.on:
            a['prior_lens'] = H.list([H.list([0, 'g2'] + self.pr)])
        if bounds is not None:
            a['check_bounds'] = bounds
        return H.new(LK, self.data(), self.model(), par, image_likelihood='image' in self.on, time_delay_likelihood='delays' in self.on, flux_ratio_likelihood='fluxes' in self.on, astrometric_likelihood='astrometry' in self.on,
                     image_position_uncertainty=self.sigma, source_position_likelihood=False, image_likelihood_mask_list=self.masks(), **a)

    def want(self):
        """sum over the selected terms by their definition; number of data."""
        H, B, on = self.H, self.B, self.on
        v, n = Const(0), 0
        if 'custom' in on:
            v = H.op('+', v, self.add)
        if 'prior' in on:
            v = H.op('+', v, gauss(H, [H.op('-', B.kl[0]['g2'], self.pr[0])], self.pr[1:]))
        if 'image' in on:
            im = H.call('lenstronomy.Util.class_creator:create_im_sim', self.bands(), 'multi-linear', self.model(), image_likelihood_mask_list=self.masks(), linear_solver=self.linear)
            a = self.kwargs()
            l = H.items(H.m(im, 'likelihood_data_given_model', a['kwargs_lens'], a['kwargs_source'], a['kwargs_lens_light'], a['kwargs_ps'], kwargs_special=a['kwargs_special']))[0]
            v = H.op('+', v, l)
            n += len(B.masked(0, B.data[0]))
        L = H.new('lenstronomy.LensModel.lens_model:LensModel', H.list(['FLEXION', 'HESSIAN']), z_lens=.5, z_source=self.redshift, z_source_convention=2., cosmo=self.cosmo)
        kl = B.kws(B.kl)
        for i in (0, 1):
            X = list(zip(B.kpv[i]['ra_image'], B.kpv[i]['dec_image']))
            if 'delays' in on:
                d = H.mul(self.special['D_dt'], H.attr(L, 'ddt_scaling'))
                t = [H.call(DAYS, H.m(L, 'fermat_potential', x, y, kl), d) for x, y in X]
                v = H.op('+', v, gauss(H, [H.op('-', H.op('-', t[1], t[0]), self.t[0][i][0])], self.t[1][i]))
                n += 1
            if 'fluxes' in on:
                m = [H.np('abs', H.m(L, 'magnification', x, y, kl)) for x, y in X]
                v = H.op('+', v, gauss(H, [H.op('-', H.op('/', m[1], m[0]), self.r[0][i][0])], self.r[1][i]))
                n += 1
        if 'astrometry' in on:
            d = self.special['delta_x_image'] + self.special['delta_y_image']
            v = H.op('+', v, gauss(H, d, [self.sigma] * len(d)))
        return v, n


def total(on, linear=False, before=False, bounds=None, args=(.5, .25), update=False):
    """the log-likelihood is the sum of its terms, or -1e18 outside of the bounds; independent of evaluations before."""
    def rel(H):
        C = Total(H, on, linear)
        a = H.arr(*args)
        inside = all(lo <= x <= hi for x, lo, hi in zip(args, *C.limits)) or bounds is False
        K = C.new(bounds=bounds, update=(C.model if update else None))
        if update:
            C.redshift = 1.5
        if before:
            keep = C.add
            C.add = Const(-10 ** 18)
            H.m(K, 'logL', a)
            C.add = keep
            keep = C.B.kl
            C.B.kl = [C.flexion('old.'), keep[1]]
            H.m(K, 'logL', a)
            C.B.kl = keep
        v, n = C.want()
        out = [(H.m(K, 'logL', a), v if inside else Const(-10 ** 18)), (H.call(K, a), v if inside else Const(-10 ** 18)), (H.m(K, 'negativelogL', a), H.op('-', 0, v) if inside else Const(10 ** 18)), (H.attr(K, 'num_data'), Const(n))]
        return out
    return rel


def tracer(kind, partition=None, what='model', s=1, psf=0):
    """a traced quantity is the brightness-weighted average of the tracer within the PSF."""
    def rel(H):
        H.M.run.generic = True
        C = c10.Scene(H, ps=(1,), s=s, psf=psf, src=['GAUSSIAN', 'GAUSSIAN'], m='scattered')
        tr = H.new(c10.LI, H.list(['GAUSSIAN', 'UNIFORM']))
        for d in C.ksv:
            d['amp'] = H.num('pos', positive=True)
        C.ks = C.kws(C.ksv)
        kt = C.kws(c10.light_kw(H, 't', ['GAUSSIAN', 'UNIFORM']))
        a = {'tracer_partition': H.list([H.list(p) for p in partition])} if partition else {}
        T = H.new('lenstronomy.ImSim.tracer_model:TracerModelSource', C.Data, C.psf, C.lens, C.src, C.light, C.ps, tracer_source_class=tr, tracer_type=kind, kwargs_numerics=H.dict(supersampling_factor=s), likelihood_mask=c10.bools(H, c10.mask(C.m, C.nx, C.ny)), **a)
        f = lambda k: H.op('/', 2 * k + 1 - s, 2 * s)
        n = C.nx * C.ny
        up, down = [Const(0)] * n, [Const(0)] * n
        for kl, kt_ in partition or [(None, None)]:
            b, t = [], []
            for y in range(C.ny):
                for x in range(C.nx):
                    bs, ts = [], []
                    for j in range(s):
                        for i in range(s):
                            p = C.P.at(f(s * x + i), f(s * y + j))
                            v = c10.sky(C, 'source', *p, k=kl)
                            q = H.m(tr, 'surface_brightness', *H.items(H.m(C.lens, 'ray_shooting', *p, C.kl)), kt, **({} if kt_ is None else {'k': kt_}))
                            if kind == 'LOG':
                                q = H.op('**', 10, q)
                            bs.append(v)
                            ts.append(H.mul(v, q))
                    b.append(H.mul(c10.mean(H, bs), C.P.area()))
                    t.append(H.mul(c10.mean(H, ts), C.P.area()))
            if psf:
                b, t = [c10.direct(H, v, C.ny, C.nx, H.flat(C.kernel), psf, psf) for v in (b, t)]
            b = [H.np('maximum', v, 1e-20) for v in b]
            up, down = [H.op('+', a, b) for a, b in zip(up, t)], [H.op('+', c, d) for c, d in zip(down, b)]
        want = [H.op('/', a, b) for a, b in zip(up, down)]
        if kind == 'LOG':
            want = [H.np('log10', v) for v in want]
        if what == 'model':
            return same(H, H.m(T, 'tracer_model', kt, C.kl, C.ks), want)
        return [(H.m(T, 'likelihood_data_given_model', kt, C.kl, C.ks), H.op('/', c10.chi2(C, want), -2)), (H.attr(T, 'num_data_evaluate'), Const(sum(b for r in c10.mask(C.m, C.nx, C.ny) for b in r)))]
    return rel


KIN = 'lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood:KinLikelihood'


def kinematics(what, i=0, j=0):
    def rel(H):
        if what == 'logL':
            d, v = [H.num('d%d' % q) for q in (0, 1)], [H.num('v%d' % q) for q in (0, 1)]
            c = spread(H, 'c', 2, True)
            K = H.stub({'covariance': lift(H, c), 'data': H.arr(*d)}, 'Kin')
            return [(H.call(KIN + '._logL', K, H.arr(*v)), gauss(H, [H.op('-', a, b) for a, b in zip(v, d)], c))]
        if what == 'scale':
            K = H.stub({'z_lens': Const(.5), 'fiducial_scale': H.num('fid', positive=True)}, 'Kin')
            im = H.img('v', 2, 2)
            a, b, k = H.num('Ddt', positive=True), H.num('Dd', positive=True), H.num('k', positive=True)
            go = lambda x, y: H.flat(H.call(KIN + '.rescale_distance', K, im, H.dict(D_dt=x, D_d=y)))
            one = go(a, b)
            return same(H, H.lift(go(H.mul(a, k, k), b)), [H.mul(k, v) for v in one]) + same(H, H.lift(go(a, H.mul(b, k, k))), [H.op('/', v, k) for v in one])
        kl = [{n: H.num('%s%d' % (n, q), positive=True) for n in ('phi', 'q', 'theta_E', 'gamma')} for q in range(3)]
        ll = [{n: H.num('l%s%d' % (n, q), positive=True) for n in ('phi', 'q', 'n_sersic', 'R_sersic')} for q in range(3)]
        sp = H.dict(b_ani=H.num('b'), incli=H.num('i'))
        go = lambda a, b, x, y: H.items(H.call(KIN + '.convert_to_nn_params', H.stub({'_idx_lens': Const(a), '_idx_lens_light': Const(b)}, 'Kin'), H.list([H.dict(**d) for d in x]), H.list([H.dict(**d) for d in y]), sp))[0]
        return same(H, go(i, j, kl, ll), H.flat(go(0, 0, [kl[i]], [ll[j]])))
    return rel


PREDICATES = {'isnan', 'isinf', 'isfinite', 'any', 'all', 'greater', 'less', 'equal', 'greater_equal', 'less_equal', 'logical_and', 'logical_or', 'logical_not', 'bool_'}


def guards(ctx):
    """numpy predicates return numpy booleans, which are never the object True or False."""
    root = os.path.join(ctx.prog.root, 'lenstronomy')
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, ctx.prog.root)
            tree = ast.parse(open(p, encoding='utf-8').read())
            np_names = {a.asname or a.name for n in ast.walk(tree) if isinstance(n, ast.Import) for a in n.names if a.name == 'numpy'}
            np_funcs = {a.asname or a.name: a.name for n in ast.walk(tree) if isinstance(n, ast.ImportFrom) and n.module == 'numpy' for a in n.names}

            def predicate(e):
                if not isinstance(e, ast.Call):
                    return None
                if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in np_names and e.func.attr in PREDICATES:
                    return e.func.attr
                if isinstance(e.func, ast.Name) and np_funcs.get(e.func.id) in PREDICATES:
                    return np_funcs[e.func.id]

            def visit(n, scope, binds):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        b = {}
                        for x in ast.walk(c):
                            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                                b.setdefault(x.targets[0].id, []).append(predicate(x.value))
                            elif isinstance(x, (ast.AugAssign, ast.For, ast.With, ast.NamedExpr, ast.arg)):
                                for y in ast.walk(x.target if hasattr(x, 'target') else x):
                                    if isinstance(y, ast.Name):
                                        b.setdefault(y.id, []).append(None)
                                    elif isinstance(y, ast.arg):
                                        b.setdefault(y.arg, []).append(None)
                        visit(c, scope + [c.name], b)
                        continue
                    if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.IsNot)):
                        l, r = c.left, c.comparators[0]
                        if isinstance(l, ast.Constant) and isinstance(l.value, bool):
                            l, r = r, l
                        if isinstance(r, ast.Constant) and isinstance(r.value, bool):
                            q = predicate(l)
                            if q is None and isinstance(l, ast.Name) and binds.get(l.id) and all(binds[l.id]):
                                q = binds[l.id][0]
                            what = '%s %s' % ('.'.join(scope) or '<module>', ast.unparse(c))
                            if q:
                                ctx.bad('guard', '%s:%s' % (rel, what), 'numpy.%s never returns the object %s, so the test has a fixed result' % (q, r.value), '%s:%d' % (rel, c.lineno))
                            else:
                                ctx.ok('guard', '%s:%s' % (rel, what))
                    visit(c, scope, binds)
            visit(tree, [], {})


def run(ctx):
    ctx.explanation = (
        'Every likelihood term is evaluated in the value-numbering domain on concrete numbers of images, delays, pixels and models with unknown values, and compared with the Gaussian (log-)probability of its '
        'data given the model quantities it names; the total is compared with the sum of the selected terms after several histories. A syntactic rule finds tests of numpy predicates that have a fixed result.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('numbers of images, data and models are enumerated (small); their values, uncertainties and model parameters are not')
    ctx.assumptions.append('the lens equation solver is an unknown function of the source position and the deflection field (C45 decides the solver)')
    ctx.rule('time delays', 'Gaussian in the delays of the model relative to the first image')
    ctx.rule('flux ratios', 'Gaussian in the flux ratios of the model')
    ctx.rule('positions', 'Gaussian in displacements, image positions and source positions')
    ctx.rule('priors', 'each prior is evaluated on its own parameter')
    ctx.rule('imaging', 'minus half of the squared residuals in units of the noise within the mask')
    ctx.rule('tracer', 'traced quantities are brightness weighted and compared within their mask')
    ctx.rule('kinematics', 'Gaussian in the binned velocities of the selected components')
    ctx.rule('total', 'the sum of the selected terms, within the bounds')
    ctx.rule('guard', 'tests for undefined likelihoods can succeed')
    R = []
    one, two = ('LENSED_POSITION',), ('LENSED_POSITION', 'UNLENSED')
    for lab, kw in (('two sources', {}), ('one source', dict(kinds=one, n=(3,))), ('redshifts', dict(z=[1., 3.])), ('covariances', dict(cov=True)), ('some delays', dict(on=[[True, False], True])),
                    ('some delays with covariance', dict(on=[[False, True], [False, False]], cov=True)), ('some of several delays with covariance', dict(n=(4, 3), on=[[True, False, True], True], cov=True)), ('one of two sources', dict(on=[False, True])), ('bimodal', dict(kinds=one, n=(2,), bimodal=True)), ('source positions', dict(kinds=('SOURCE_POSITION', 'UNLENSED'))),
                    ('again', dict(twice=True, z=[1., None]))):
        R.append(('time delays', lab, delays(**kw)))
        if 'bimodal' != lab:
            R.append(('time delays', 'number, ' + lab, number(**{k: v for k, v in kw.items() if k != 'twice'})))
    for lab, kw in (('two sources', {}), ('redshifts', dict(z=[1., 3.])), ('covariances', dict(cov=True, n=(2, 3))), ('one source', dict(kinds=one, n=(3,))), ('one of two sources', dict(on=[False, True])), ('again', dict(twice=True, z=[1., None])),
                    ('several planes', dict(mp=True, z=[1., 1.5])), ('four images', dict(n=(4, 2)))):
        R.append(('flux ratios', lab, fluxes(**kw)))
    for t in ('astrometry', 'images', 'sources'):
        for lab, kw in (('', {}), ('redshifts', dict(z=[1., 3.])), ('again', dict(z=[1., None], twice=True, kinds=one * 2)), ('several planes', dict(mp=True)), ('rotated', dict(skew=True))):
            R.append(('positions', '%s %s' % (t, lab), position(t, **kw)))
    R.append(('positions', 'sources by default', position('sources', default=True)))
    R.append(('positions', 'sources of frames', position('sources', kinds=one * 2, n=(2, 1), frames=([[0, 1], [0, 2]], [[0, 1], [1]]))))
    for k in ('', '_lognormal'):
        for gs in [(g,) for g in GROUPS] + [GROUPS]:
            R.append(('priors', '%s%s' % ('+'.join(gs), k), prior(gs, k)))
    for kind in ('data', 'residuals', 'variance', 'model', 'linear', 'marginal'):
        for noise in ('map', 'p'):
            for m in (None, 'scattered'):
                if kind in ('linear', 'marginal'):
                    R.append(('imaging', '%s %s %s' % (kind, noise, m), c10.likelihood(kind, noise=noise, m=m, nx=4, ny=3, src=['GAUSSIAN'], light=[])))
                    continue
                R.append(('imaging', '%s %s %s' % (kind, noise, m), c10.likelihood(kind, noise=noise, m=m)))
                if kind in ('data', 'residuals'):
                    R.append(('imaging', '%s %s %s with model error' % (kind, noise, m), c10.likelihood(kind, err=True, noise=noise, m=m)))
    px = [[(3, 3), (4, 3)], [(0, 3)]]
    for lab, kw in (('', {}), ('displaced', dict(shift=[(1, 0), (0, 1), (3, 0)])), ('some', dict(on=[True, False])), ('others displaced', dict(on=[False, True], shift=[(1, 0), (0, 1), (3, 0)])), ('masked', dict(m='scattered'))):
        R.append(('imaging', 'PSF variance %s' % lab, c10.point_variance(px, nx=7, ny=6, **kw)))
    R.append(('imaging', 'PSF variance wide', c10.point_variance([[(5, 3)]], nx=8, ny=6)))
    for k in (0, 1):
        R.append(('imaging', 'displaced point source model %d' % k, c10.one_point_model(k, [(1, 0), (-1, 0), (0, -1)])))
    for p in (None, [[0, 0], [1, 1]], [[1, 0], [0, None]]):
        for s, psf in ((1, 0), (2, 0), (1, 3)):
            for w in ('model', 'likelihood'):
                R.append(('tracer', '%s of %s%s%s' % (w, p, ' supersampled' * (s - 1), ' convolved' if psf else ''), tracer('LINEAR', p, w, s, psf)))
    R += [('kinematics', 'likelihood', kinematics('logL')), ('kinematics', 'distances', kinematics('scale'))]
    R += [('kinematics', 'components %d %d' % (i, j), kinematics('parameters', i, j)) for i, j in ((0, 0), (2, 1), (0, 2))]
    for on in [(t,) for t in TERMS] + [TERMS, ()]:
        R.append(('total', '+'.join(on) or 'nothing', total(on)))
        R.append(('total', '+'.join(on) + ' again', total(on, before=True)))
    R.append(('total', 'linear', total(('image', 'delays'), linear=True)))
    R.append(('total', 'updated model', total(('delays', 'fluxes', 'image'), update=True)))
    for lab, a in (('above', (.5, 2.)), ('below', (-.5, .25)), ('at the edge', (0., 1.)), ('first above', (2., .5)), ('second below', (.5, -1.))):
        R.append(('total', 'bounds, ' + lab, total(('prior',), args=a)))
        R.append(('total', 'no bounds, ' + lab, total(('prior',), args=a, bounds=False)))
    decide(ctx, R, nd=True, n=3)
    guards(ctx)
    for r, k in (('time delays', 8), ('flux ratios', 4), ('positions', 8), ('priors', 7), ('imaging', 12), ('tracer', 10), ('kinematics', 3), ('total', 16), ('guard', 100)):
        ctx.min_ok(r, k)
