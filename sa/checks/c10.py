"""C10 image model: superposition of the components, linear response, inversion and likelihood of an image."""
from ..values import *
from ..mlrel import decide
from .c11 import Plane, mask, bools, same, shaped, mean
from .c43 import direct

LM = 'lenstronomy.LensModel.lens_model:LensModel'
LI = 'lenstronomy.LightModel.light_model:LightModel'
PO = 'lenstronomy.PointSource.point_source:PointSource'
DA = 'lenstronomy.Data.imaging_data:ImageData'
PS = 'lenstronomy.Data.psf:PSF'
IM = 'lenstronomy.ImSim.image_model:ImageModel'
IL = 'lenstronomy.ImSim.image_linear_solve:ImageLinearFit'
MS = 'lenstronomy.ImSim.image2source_mapping:Image2SourceMapping'
DX = 'lenstronomy.ImSim.differential_extinction:DifferentialExtinction'
DL = 'lenstronomy.ImSim.de_lens:'

SRC, LIGHT = ['GAUSSIAN', 'UNIFORM', 'GAUSSIAN'], ['GAUSSIAN', 'GAUSSIAN']


POS = [(1, 0), (2, 1), (0, 1), (1, 1)]      # pixels of the point sources


def light_kw(H, pre, names):
    out = []
    for i, n in enumerate(names):
        k = {'amp': H.num('%s%d.amp' % (pre, i))}
        if n == 'GAUSSIAN':
            k.update(sigma=H.num('%s%d.sigma' % (pre, i), positive=True), center_x=H.num('%s%d.cx' % (pre, i)), center_y=H.num('%s%d.cy' % (pre, i)))
        out.append(k)
    return out


class Scene:
    """lens, sources, lens light and point sources observed in a general pixel frame."""

    def __init__(self, H, nx=3, ny=2, s=1, m=None, fs=False, pb=False, psf=3, ext=False, ps=2, cls=IM, numerics=None, src=SRC, light=LIGHT, noise='map', lens=True, pst='UNLENSED', boost=None, ps_kw=None, pix=None, variance=False, on=None):
        self.H, self.nx, self.ny, self.s = H, nx, ny, s
        self.P = P = Plane(H)
        self.fs = H.num('fs') if fs else None
        self.lens = H.new(LM, H.list(['SHEAR', 'CONVERGENCE']) if lens else H.list([]))
        self.src = H.new(LI, H.list(src))
        self.light = H.new(LI, H.list(light))
        self.nsrc, self.nlight = len(src), len(light)
        self.nps = ps
        types = [pst] * len(ps) if ps else []
        self.ps = H.new(PO, H.list(types), **(ps_kw or {}))
        self.data = H.img('d', ny, nx)
        kw = {}
        if noise == 'map':
            self.noise = H.img('n', ny, nx)
            kw['noise_map'] = self.noise
        else:
            self.exp, self.bkg = H.num('exp', positive=True), H.num('bkg', positive=True)
            kw.update(exposure_time=self.exp, background_rms=self.bkg)
            if boost:
                kw['gradient_boost_factor'] = H.num('boost')
        if fs:
            kw['flux_scaling'] = self.fs
        self.pb = None
        if pb:
            self.pb = H.img('pb', ny, nx)
            kw['antenna_primary_beam'] = self.pb
        self.Data = H.new(DA, self.data, transform_pix2angle=P.matrix(), ra_at_xy_0=P.o[0], dec_at_xy_0=P.o[1], **kw)
        if psf:
            self.kernel = H.img('k', psf, psf)
            kw = {}
            if variance:
                self.variance = H.img('kv', psf, psf)
                kw['psf_variance_map'] = self.variance
            self.psf = H.new(PS, 'PIXEL', kernel_point_source=self.kernel, kernel_point_source_normalisation=False, **kw)
        else:
            self.kernel = None
            self.psf = H.new(PS, 'NONE')
        kw = {}
        self.m = m
        if m:
            kw['likelihood_mask'] = bools(H, mask(m, nx, ny))
        if on is not None:
            kw['psf_error_map_bool_list'] = H.list(on)
        self.ext = None
        if ext:
            self.ext = H.new(DX, H.list(['UNIFORM', 'GAUSSIAN']))
            kw['extinction_class'] = self.ext
        nk = {'supersampling_factor': s}
        nk.update(numerics or {})
        self.I = H.new(cls, self.Data, self.psf, self.lens, self.src, self.light, self.ps, kwargs_numerics=H.dict(**nk), **kw)
        self.kl = self.kws([{'gamma1': H.num('g1'), 'gamma2': H.num('g2'), 'ra_0': H.num('ra_0'), 'dec_0': H.num('dec_0')}, {'kappa': H.num('kappa'), 'ra_0': H.num('ra_1'), 'dec_0': H.num('dec_1')}]) if lens else self.kws([])
        self.ksv, self.kllv = light_kw(H, 's', src), light_kw(H, 'l', light)
        self.ks, self.kll = self.kws(self.ksv), self.kws(self.kllv)
        self.pix = pix or [[POS[(2 * i + j) % len(POS)] for j in range(n)] for i, n in enumerate(ps or [])]
        self.kpv = [{'ra_image': [P.at(*q)[0] for q in w], 'dec_image': [P.at(*q)[1] for q in w], 'point_amp': [H.num('p%d.a%d' % (i, j)) for j in range(len(w))]} for i, w in enumerate(self.pix)]
        self.kp = self.kws(self.kpv)
        self.kex = self.kws([{'amp': H.num('e.amp')}, {'amp': H.num('e1.amp'), 'sigma': H.num('e1.s', positive=True), 'center_x': H.num('e1.x'), 'center_y': H.num('e1.y')}]) if ext else None
        self.special = None
        if ext:
            self.tau0 = H.num('tau0')
            self.special = H.dict(tau0_list=[self.tau0])

    def kws(self, ds):
        return self.H.list([self.H.dict(**d) for d in ds])

    def args(self):
        return [self.kl, self.ks, self.kll, self.kp, self.kex if self.kex is not None else Const(None), self.special if self.special is not None else Const(None)]

    def scaled(self, v):
        return v if self.fs is None else self.H.mul(v, self.fs)


def flags():
    return [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]


def total(H, xs, n):
    out = []
    for i in range(n):
        t = Const(0)
        for x in xs:
            t = H.op('+', t, x[i])
        out.append(t)
    return out


def image_sum(f, unconvolved=False, **kw):
    def rel(H):
        C = Scene(H, ps=(2, 1), **kw)
        u = dict(unconvolved=unconvolved)
        ex = {} if C.kex is None else {'kwargs_extinction': C.kex, 'kwargs_special': C.special}
        parts = [H.m(C.I, 'source_surface_brightness', C.ks, C.kl, **dict(u, **ex)), H.m(C.I, 'lens_surface_brightness', C.kll, **u), H.m(C.I, 'point_source', C.kp, C.kl, **u)]
        im = H.m(C.I, 'image', *C.args(), source_add=f[0], lens_light_add=f[1], point_source_add=f[2], **u)
        n = C.nx * C.ny
        return shaped(H, im, C.ny, C.nx) + same(H, im, total(H, [H.flat(p) for p, b in zip(parts, f) if b], n))
    return rel



def components(kind, n, **kw):
    """the image of a component list is the sum over the components evaluated one by one."""
    def rel(H):
        C = Scene(H, ps=(2, 1), **kw)
        f = {'source': lambda **k: H.m(C.I, 'source_surface_brightness', C.ks, C.kl, **k), 'lens light': lambda **k: H.m(C.I, 'lens_surface_brightness', C.kll, **k),
             'point source': lambda **k: H.m(C.I, 'point_source', C.kp, C.kl, **k)}[kind]
        return same(H, f(), total(H, [H.flat(f(k=i)) for i in range(n)], C.nx * C.ny))
    return rel


def sky(C, kind, ra, dec, k=None, de_lensed=False):
    """brightness of the model at a position on the sky."""
    H = C.H
    kk = {} if k is None else {'k': k}
    if kind == 'lens light':
        return H.m(C.light, 'surface_brightness', ra, dec, C.kll, **kk)
    if de_lensed:
        return H.m(C.src, 'surface_brightness', ra, dec, C.ks, **kk)
    bx, by = H.items(H.m(C.lens, 'ray_shooting', ra, dec, C.kl))
    v = H.m(C.src, 'surface_brightness', bx, by, C.ks, **kk)
    if C.kex is not None:
        tau = H.m(H.new(LI, H.list(['UNIFORM', 'GAUSSIAN'])), 'surface_brightness', ra, dec, C.kex)
        t0 = C.tau0 if C.special is not None else Const(1)
        v = H.mul(v, H.np('exp', H.op('-', 0, H.mul(t0, tau))))
    return v


def pixels(C, kind, **kw):
    """flux per pixel before convolution."""
    H, P, s = C.H, C.P, C.s
    f = lambda k: H.op('/', 2 * k + 1 - s, 2 * s)
    out = []
    pb = H.flat(C.pb) if C.pb is not None else None
    for y in range(C.ny):
        for x in range(C.nx):
            v = mean(H, [sky(C, kind, *P.at(f(s * x + i), f(s * y + j)), **kw) for j in range(s) for i in range(s)])
            v = C.scaled(H.mul(v, P.area()))
            out.append(H.mul(v, pb[y * C.nx + x]) if pb else v)
    return out


def brightness(kind, unconvolved=False, k=None, de_lensed=False, **kw):
    def rel(H):
        C = Scene(H, ps=(1,), **kw)
        a = dict(unconvolved=unconvolved)
        if k is not None:
            a['k'] = k
        if kind == 'source':
            if C.kex is not None:
                a['kwargs_extinction'] = C.kex
            if C.special is not None:
                a['kwargs_special'] = C.special
            im = H.m(C.I, 'source_surface_brightness', C.ks, C.kl, de_lensed=de_lensed, **a)
        else:
            im = H.m(C.I, 'lens_surface_brightness', C.kll, **a)
        want = pixels(C, kind, k=k, de_lensed=de_lensed)
        if C.kernel is not None and not unconvolved:
            want = direct(H, want, C.ny, C.nx, H.flat(C.kernel), 3, 3)
        return shaped(H, im, C.ny, C.nx) + same(H, im, want)
    return rel


def points(C, shift=None):
    """sum over the point sources of amplitude times the kernel centred on their pixel."""
    H = C.H
    out = [Const(0)] * (C.nx * C.ny)
    kern = H.flat(C.kernel) if C.kernel is not None else [Const(int(i == 4)) for i in range(9)]
    n = 0
    for w, kp in zip(C.pix, C.kpv):
        for (px, py), a in zip(w, kp['point_amp']):
            d = shift[n] if shift and n < len(shift) else (0, 0)
            n += 1
            for j in range(3):
                for i in range(3):
                    x, y = px + d[0] + i - 1, py + d[1] + j - 1
                    if 0 <= x < C.nx and 0 <= y < C.ny:
                        out[y * C.nx + x] = H.op('+', out[y * C.nx + x], C.scaled(H.mul(a, kern[3 * j + i])))
    return out


def offsets(C, shift):
    H, t = C.H, C.P.t
    d = [[H.op('+', H.mul(t[i][0], a), H.mul(t[i][1], b)) for a, b in shift] for i in range(2)]
    return {'delta_x_image': H.arr(*d[0]), 'delta_y_image': H.arr(*d[1])}


def point_flux(shift=None, unconvolved=False, **kw):
    def rel(H):
        C = Scene(H, ps=(2, 1), **kw)
        a = {'kwargs_special': H.dict(**offsets(C, shift))} if shift else {}
        if unconvolved:
            C.kernel = None
        return same(H, H.m(C.I, 'point_source', C.kp, C.kl, unconvolved=unconvolved, **a), points(C, shift))
    return rel


def masked(H, C, im):
    on = [b for r in mask(C.m or 'all', C.nx, C.ny) for b in r]
    return [v for v, b in zip(H.flat(im), on) if b]


def response(shift=None, **kw):
    """image = linear amplitudes times the response, on the pixels of the likelihood mask; amplitudes are listed and written back in that order."""
    def rel(H):
        C = Scene(H, ps=(2, 1), cls=IL, **kw)
        if shift:
            C.special = H.dict(**offsets(C, shift))
        A = H.m(C.I, 'linear_response_matrix', *C.args())
        p = H.items(H.m(C.I, 'linear_param_from_kwargs', C.ks, C.kll, C.kp))
        im = masked(H, C, H.m(C.I, 'image', *C.args()))
        n = len(p)
        out = shaped(H, A, n, len(im)) + [(H.m(C.I, 'num_param_linear', C.kl, C.ks, C.kll, C.kp), Const(n)), (H.attr(C.I, 'num_data_evaluate'), Const(len(im)))]
        a = H.flat(A)
        for c in range(len(im)):
            t = Const(0)
            for r in range(n):
                t = H.op('+', t, H.mul(a[r * len(im) + c], p[r]))
            out.append((t, im[c]))
        new = [H.num('q%d' % i) for i in range(n)]
        H.m(C.I, 'update_linear_kwargs', H.arr(*new), C.kl, C.ks, C.kll, C.kp)
        back = H.items(H.m(C.I, 'linear_param_from_kwargs', C.ks, C.kll, C.kp))
        return out + same(H, H.list(back), new)
    return rel


def solved(inv=False, **kw):
    """the inverted amplitudes solve the normal equations, the returned model is the image of the updated arguments on the mask, zero elsewhere."""
    def rel(H):
        C = Scene(H, ps=(1,), cls=IL, **kw)
        A = H.flat(H.m(C.I, 'linear_response_matrix', *C.args()))
        c, _ = H.items(H.m(C.I, 'error_response', C.kl, C.kp, Const(None)))
        c = H.flat(c)
        d = masked(H, C, C.data)
        model, err, cov, p = H.items(H.m(C.I, 'image_linear_solve', *C.args(), inv_bool=inv))
        p = H.flat(p)
        n, m = len(p), len(d)
        mm = masked(H, C, model)
        out = [(Const(len(c)), Const(m))]
        for i in range(m):
            t = Const(0)
            for r in range(n):
                t = H.op('+', t, H.mul(A[r * m + i], p[r]))
            out.append((mm[i], t))
        for r in range(n):
            t = Const(0)
            for i in range(m):
                t = H.op('+', t, H.op('/', H.mul(A[r * m + i], H.op('-', d[i], mm[i])), c[i]))
            out.append((t, Const(0)))
        out += list(zip(masked(H, C, H.m(C.I, 'image', *C.args())), mm))
        on = [b for r in mask(C.m or 'all', C.nx, C.ny) for b in r]
        out += [(v, Const(0)) for v, b in zip(H.flat(model), on) if not b]
        if inv:
            cv = H.flat(cov)
            M = [[Const(0)] * n for _ in range(n)]
            for r in range(n):
                for q in range(n):
                    for i in range(m):
                        M[r][q] = H.op('+', M[r][q], H.op('/', H.mul(A[r * m + i], A[q * m + i]), c[i]))
            for r in range(n):
                for q in range(n):
                    t = Const(0)
                    for k in range(n):
                        t = H.op('+', t, H.mul(M[r][k], cv[k * n + q]))
                    out.append((t, Const(int(r == q))))
        return out
    return rel



def mapped(zs, zl, k=None, scaled=False, names=None, zconv=None):
    """several source planes: each component is evaluated where the ray meets its own plane; the linear response lists the components in order."""
    names = names or ['GAUSSIAN', 'SHAPELETS', 'GAUSSIAN'][:len(zs)]

    def rel(H):
        H.M.run.generic = True
        cosmo = H.cosmology()
        lens = ['SHEAR', 'CONVERGENCE', 'SHEAR'][:len(zl)]
        kl = [{'gamma1': H.num('g%d' % i), 'gamma2': H.num('h%d' % i)} if n == 'SHEAR' else {'kappa': H.num('kap%d' % i)} for i, n in enumerate(lens)]
        kwl = H.list([H.dict(**q) for q in kl])
        if scaled:
            lm = H.new(LM, H.list(lens))
            sc = [H.num('f%d' % i) for i in range(len(zs))]
            src = H.new(LI, H.list(names), deflection_scaling_list=H.list(sc))
        else:
            lm = H.new(LM, H.list(lens), multi_plane=True, lens_redshift_list=H.list(zl), z_source=max(zs), cosmo=cosmo, z_source_convention=zconv or max(zs))
            src = H.new(LI, H.list(names), source_redshift_list=H.list(zs))
        ksv = []
        for i, n in enumerate(names):
            q = {'center_x': H.num('cx%d' % i), 'center_y': H.num('cy%d' % i)}
            q.update({'amp': [H.num('a%d.%d' % (i, j)) for j in range(3)], 'n_max': 1, 'beta': H.num('b%d' % i, positive=True)} if n == 'SHAPELETS' else {'amp': H.num('a%d' % i), 'sigma': H.num('sig%d' % i, positive=True)})
            ksv.append(q)
        ks = H.list([H.dict(**q) for q in ksv])
        I = H.new(MS, lm, src)
        x, y = H.img('x', 2), H.img('y', 2)
        where = []
        for i, z in enumerate(zs):
            if scaled:
                ax, ay = H.items(H.m(lm, 'alpha', x, y, kwl))
                where.append([H.op('-', x, H.mul(sc[i], ax)), H.op('-', y, H.mul(sc[i], ay))])
            else:
                fresh = H.new(LM, H.list(lens), multi_plane=True, lens_redshift_list=H.list(zl), z_source=z, cosmo=cosmo, z_source_convention=zconv or max(zs))
                where.append(H.items(H.m(fresh, 'ray_shooting', x, y, kwl)))
        out = []
        parts = []
        unit = []
        for i, n in enumerate(names):
            one = H.new(LI, H.list([n]))
            parts.append(H.flat(H.m(one, 'surface_brightness', where[i][0], where[i][1], H.list([H.dict(**ksv[i])]))))
            r, m = H.items(H.m(one, 'functions_split', where[i][0], where[i][1], H.list([H.dict(**ksv[i])])))
            unit += [H.flat(v) for v in H.items(r)]
            bx, by = H.items(H.m(I, 'image2source', x, y, kwl, index_source=i))
            out += list(zip(H.flat(bx), H.flat(where[i][0]))) + list(zip(H.flat(by), H.flat(where[i][1])))
        for k in [None] + list(range(len(zs))):
            got = H.m(I, 'image_flux_joint', x, y, kwl, ks, **({} if k is None else {'k': k}))
            out += same(H, got, total(H, parts, 2) if k is None else parts[k])
        r, n = H.items(H.m(I, 'image_flux_split', x, y, kwl, ks))
        out.append((n, Const(len(unit))))
        out += same(H, r, [v for u in unit for v in u])
        return out
    return rel


def poisson(C, v):
    """noise variance of a pixel with model flux v (index i for noise maps)."""
    H = C.H
    return [H.op('+', H.op('/', H.np('maximum', x, 0), C.exp), H.mul(C.bkg, C.bkg)) for x in v] if getattr(C, 'exp', None) is not None else [H.mul(n, n) for n in H.flat(C.noise)]


def chi2(C, im, err=None):
    H = C.H
    on = [b for r in mask(C.m or 'all', C.nx, C.ny) for b in r]
    c, d = poisson(C, im), H.flat(C.data)
    t = Const(0)
    for i, b in enumerate(on):
        if b:
            r = H.op('-', im[i], d[i])
            v = c[i] if err is None else H.op('+', c[i], H.np('abs', err[i]))
            t = H.op('+', t, H.op('/', H.mul(r, r), v))
    return t


def likelihood(kind, err=False, **kw):
    """log-likelihoods are minus half of the sum over the mask of the squared residuals in units of the noise."""
    def rel(H):
        C = Scene(H, ps=(1,), cls=IM if kind in ('model', 'data', 'residuals', 'variance') else IL, **kw)
        mk = bools(H, mask(C.m or 'all', C.nx, C.ny))
        half = lambda t: H.op('/', t, -2)
        if kind == 'data':
            im = H.img('m', C.ny, C.nx)
            e = H.img('e', C.ny, C.nx) if err else None
            a = [e] if err else []
            return [(H.m(C.Data, 'log_likelihood', im, mk, *a), half(chi2(C, H.flat(im), H.flat(e) if err else None)))]
        if kind == 'residuals':
            im = H.img('m', C.ny, C.nx)
            e = H.img('e', C.ny, C.nx) if err else None
            a = [e] if err else []
            r = H.m(C.I, 'reduced_residuals', im, *a)
            c, d, m = poisson(C, H.flat(im)), H.flat(C.data), H.flat(im)
            on = [b for r_ in mask(C.m or 'all', C.nx, C.ny) for b in r_]
            ev = [H.np('abs', v) for v in H.flat(e)] if err else [Const(0)] * len(m)
            out = same(H, r, [H.op('/', H.op('-', d[i], m[i]), H.np('sqrt', H.op('+', c[i], ev[i]))) if on[i] else Const(0) for i in range(len(m))])
            return out + [(H.m(C.I, 'reduced_chi2', im, *a), H.op('/', chi2(C, m, H.flat(e) if err else None), sum(on)))]
        if kind == 'variance':
            im = H.flat(H.m(C.I, 'image', *C.args()))
            return same(H, H.m(C.I, 'variance_map', *C.args()), poisson(C, im))
        if kind == 'model':
            im = H.flat(H.m(C.I, 'image', *C.args()))
            return [(H.m(C.I, 'likelihood_data_given_model', *C.args()), half(chi2(C, im)))]
        marg = kind == 'marginal'
        l, p = H.items(H.m(C.I, 'likelihood_data_given_model', *C.args(), source_marg=marg))
        out = []
        D = C.I
        model, e, cov, q = H.items(H.m(D, 'image_linear_solve', *C.args(), inv_bool=marg))
        out += same(H, p, H.flat(q))
        want = half(chi2(C, H.flat(model)))
        if marg:
            a, b, c, d = H.flat(cov)
            det = H.op('-', H.mul(a, d), H.mul(b, c))
            want = H.op('+', want, H.op('/', H.mul(H.np('sign', det), H.np('log', H.np('abs', det))), 2))
        return out + [(l, want)]
    return rel


SB = 'lenstronomy.ImSim.MultiBand.single_band_multi_model:SingleBandMultiModel'
ML = 'lenstronomy.ImSim.MultiBand.multi_linear:MultiLinear'
JL = 'lenstronomy.ImSim.MultiBand.joint_linear:JointLinear'
JB = 'lenstronomy.ImSim.MultiBand.joint_linear_vary_background:JointLinear_VaryBG'
LENS_IDX, SRC_IDX, LIGHT_IDX, PS_IDX, TAU_IDX = [[1, 0], [1]], [[2, 0], [1, 2]], [[1], [1, 0]], [[0], [1]], [[1], [1, 0]]


class Bands:
    """two bands with their own pixel frame, PSF, noise and mask, observing selections of one set of models."""

    def __init__(self, H, select=True, ext=False, noise='map', psf=3, src=SRC, light=LIGHT, m=('scattered', 'all'), nps=2, small=False, shapes=None, variance=False):
        self.H, self.select, self.ext = H, select, ext
        self.shapes = shapes or ([(3, 3), (4, 2)] if small else [(3, 2), (4, 3)])
        self.variance = [H.img('var%d' % b, psf, psf) for b in range(2)] if variance else None
        self.m = m
        self.src, self.light = src, light
        self.kl = [{'gamma1': H.num('g1'), 'gamma2': H.num('g2')}, {'kappa': H.num('kappa')}]
        self.ksv, self.kllv = light_kw(H, 's', src), light_kw(H, 'l', light)
        self.P = [Plane(H, 'u'), Plane(H, 'w')]
        self.kpv = [{'ra_image': [self.P[b].at(1, 1)[0]], 'dec_image': [self.P[b].at(1, 1)[1]], 'point_amp': [H.num('p%d.a' % i)]} for i, b in enumerate((0, 1)[:nps])]
        self.kex = [{'amp': H.num('e.amp')}, {'amp': H.num('e1.amp'), 'sigma': H.num('e1.s', positive=True), 'center_x': H.num('e1.x'), 'center_y': H.num('e1.y')}]
        self.tau = [H.num('tau0'), H.num('tau1')]
        self.data, self.noise = [H.img('d%d' % b, ny, nx) for b, (nx, ny) in enumerate(self.shapes)], [H.img('n%d' % b, ny, nx) for b, (nx, ny) in enumerate(self.shapes)]
        self.kernel = [H.img('k%d' % b, psf, psf) for b in range(2)]
        self.kinds = noise
        self.exp, self.bkg = [H.num('exp%d' % b, positive=True) for b in range(2)], [H.num('bkg%d' % b, positive=True) for b in range(2)]
        self.model = dict(lens_model_list=H.list(['SHEAR', 'CONVERGENCE']), source_light_model_list=H.list(src), lens_light_model_list=H.list(light), point_source_model_list=H.list(['UNLENSED'] * nps))
        if select:
            q = lambda ix, n: H.list([H.list([i for i in s if i < n]) for s in ix])
            self.model.update(index_lens_model_list=q(LENS_IDX, 2), index_source_light_model_list=q(SRC_IDX, len(src)), index_lens_light_model_list=q(LIGHT_IDX, len(light)), index_point_source_model_list=q(PS_IDX, nps))
        if ext:
            self.model.update(optical_depth_model_list=H.list(['UNIFORM', 'GAUSSIAN']), tau0_index_list=H.list([1, 0]))
            if select:
                self.model['index_optical_depth_model_list'] = H.list([H.list(i) for i in TAU_IDX])

    def kw_data(self, b):
        H, P = self.H, self.P[b]
        n = {'noise_map': self.noise[b]} if self.kinds == 'map' else {'exposure_time': self.exp[b], 'background_rms': self.bkg[b]}
        return dict(image_data=self.data[b], transform_pix2angle=P.matrix(), ra_at_xy_0=P.o[0], dec_at_xy_0=P.o[1], **n)

    def kw_psf(self, b):
        return dict(psf_type='PIXEL', kernel_point_source=self.kernel[b], kernel_point_source_normalisation=False, **({'psf_variance_map': self.variance[b]} if self.variance else {}))

    def bands(self):
        H = self.H
        return H.list([H.list([H.dict(**self.kw_data(b)), H.dict(**self.kw_psf(b)), H.dict(supersampling_factor=1 + b)]) for b in range(2)])

    def masks(self):
        return self.H.list([bools(self.H, mask(self.m[b], *self.shapes[b])) for b in range(2)])

    def pick(self, xs, ix, b):
        return [xs[i] for i in ix[b] if i < len(xs)] if self.select else list(xs)

    def kws(self, ds):
        return self.H.list([self.H.dict(**d) for d in ds])

    def args(self, b=None):
        """arguments of all bands, or those of the models of one band."""
        q = (lambda xs, ix: xs) if b is None else (lambda xs, ix: self.pick(xs, ix, b))
        a = [self.kws(q(self.kl, LENS_IDX)), self.kws(q(self.ksv, SRC_IDX)), self.kws(q(self.kllv, LIGHT_IDX)), self.kws(q(self.kpv, PS_IDX))]
        if self.ext:
            return a + [self.kws(q(self.kex, TAU_IDX)), self.H.dict(tau0_list=self.tau)]
        return a + [Const(None), Const(None)]

    def single(self, b, cls=IL):
        """the band built by hand from the models it observes."""
        H = self.H
        kw = {}
        if self.ext:
            kw['extinction_class'] = H.new(DX, H.list(self.pick(['UNIFORM', 'GAUSSIAN'], TAU_IDX, b)), tau0_index=1 - b)
        return H.new(cls, H.new(DA, **self.kw_data(b)), H.new(PS, **self.kw_psf(b)), H.new(LM, H.list(self.pick(['SHEAR', 'CONVERGENCE'], LENS_IDX, b))), H.new(LI, H.list(self.pick(self.src, SRC_IDX, b))),
                     H.new(LI, H.list(self.pick(self.light, LIGHT_IDX, b))), H.new(PO, H.list(self.pick(['UNLENSED'] * len(self.kpv), PS_IDX, b))), kwargs_numerics=H.dict(supersampling_factor=1 + b),
                     likelihood_mask=bools(H, mask(self.m[b], *self.shapes[b])), **kw)

    def masked(self, b, v):
        on = [x for r in mask(self.m[b], *self.shapes[b]) for x in r]
        return [x for x, o in zip(self.H.flat(v), on) if o]


def item(H, d, key):
    return H.m(d, 'get', key)


def alike(H, a, b):
    return same(H, a, H.flat(b))


def band_model(b, what, **kw):
    """a band of a multi-band model is the image model of the components it selects."""
    def rel(H):
        B = Bands(H, **kw)
        I = H.new(SB, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), band_index=b, **({'linear_solver': False} if what == 'fixed likelihood' else {}))
        one = B.single(b)
        g, w = B.args(), B.args(b)
        if what == 'image':
            out = alike(H, H.m(I, 'image', *g), H.m(one, 'image', *w)) + alike(H, H.m(I, 'image', *g, unconvolved=True, point_source_add=False), H.m(one, 'image', *w, unconvolved=True, point_source_add=False))
            e, f = ({}, {}) if not B.ext else (dict(kwargs_extinction=g[4], kwargs_special=g[5]), dict(kwargs_extinction=w[4], kwargs_special=w[5]))
            out += alike(H, H.m(I, 'source_surface_brightness', g[1], g[0], **e), H.m(one, 'source_surface_brightness', w[1], w[0], **f))
            out += alike(H, H.m(I, 'source_surface_brightness', g[1], g[0], k=1, unconvolved=True, **e), H.m(one, 'source_surface_brightness', w[1], w[0], k=1, unconvolved=True, **f))
            out += alike(H, H.m(I, 'source_surface_brightness', g[1], g[0], de_lensed=True), H.m(one, 'source_surface_brightness', w[1], w[0], de_lensed=True))
            out += alike(H, H.m(I, 'lens_surface_brightness', g[2]), H.m(one, 'lens_surface_brightness', w[2]))
            out += alike(H, H.m(I, 'lens_surface_brightness', g[2], unconvolved=True, k=0), H.m(one, 'lens_surface_brightness', w[2], unconvolved=True, k=0))
            return out + alike(H, H.m(I, 'point_source', g[3], g[0]), H.m(one, 'point_source', w[3], w[0]))
        if what == 'response':
            out = alike(H, H.m(I, 'linear_response_matrix', *g), H.m(one, 'linear_response_matrix', *w))
            out += [(H.m(I, 'num_param_linear', *g[:4]), H.m(one, 'num_param_linear', *w[:4])), (H.attr(I, 'num_data_evaluate'), Const(sum(b_ for r in mask(B.m[b], *B.shapes[b]) for b_ in r)))]
            out += same(H, H.list(H.items(H.m(I, 'linear_param_from_kwargs', *g[1:4]))), H.items(H.m(one, 'linear_param_from_kwargs', *w[1:4])))
            c, e = H.items(H.m(I, 'error_response', g[0], g[3], Const(None)))
            out += same(H, c, [H.mul(n, n) for n in B.masked(b, B.noise[b])]) + same(H, H.attr(I, 'data_response'), B.masked(b, B.data[b]))
            new = [H.num('q%d' % i) for i in range(len(H.items(H.m(I, 'linear_param_from_kwargs', *g[1:4]))))]
            H.m(I, 'update_linear_kwargs', H.arr(*new), *g[:4])
            return out + same(H, H.list(H.items(H.m(I, 'linear_param_from_kwargs', *g[1:4]))), new)
        if what == 'variance':
            return alike(H, H.m(I, 'variance_map', *g), H.m(one, 'variance_map', *w))
        if what == 'extinction':
            return alike(H, H.m(I, 'extinction_map', *g[4:]), H.m(one, 'extinction_map', *w[4:]))
        if what == 'fixed likelihood':
            l, _ = H.items(H.m(I, 'likelihood_data_given_model', *g))
            return [(l, H.m(B.single(b, IM), 'likelihood_data_given_model', *w))]
        l, p = H.items(H.m(I, 'likelihood_data_given_model', *g))
        l1, p1 = H.items(H.m(one, 'likelihood_data_given_model', *w))
        m, e, c, p2 = H.items(H.m(I, 'image_linear_solve', *B.args(), inv_bool=True))
        m1, e1, c1, p3 = H.items(H.m(one, 'image_linear_solve', *B.args(b), inv_bool=True))
        return [(l, l1)] + alike(H, p, p1) + alike(H, m, m1) + alike(H, c, c1) + alike(H, p2, p3)
    return rel


def total_likelihood(compute=None, **kw):
    """bands solved on their own: likelihoods add up over the computed bands, the parameters are those of the band."""
    def rel(H):
        B = Bands(H, **kw)
        I = H.new(ML, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), compute_bool=Const(None) if compute is None else H.list(compute))
        on = [b for b in range(2) if compute is None or compute[b]]
        l, p = H.items(H.m(I, 'likelihood_data_given_model', *B.args()))
        p = H.items(p)
        want, out = Const(0), []
        models, errs, covs, ps = [H.items(x) for x in H.items(H.m(I, 'image_linear_solve', *B.args()))]
        n = 0
        for b in on:
            l1, p1 = H.items(H.m(B.single(b), 'likelihood_data_given_model', *B.args(b)))
            want = H.op('+', want, l1)
            m1, _, _, _ = H.items(H.m(B.single(b), 'image_linear_solve', *B.args(b)))
            out += alike(H, p[b], p1) + alike(H, models[b], m1) + alike(H, ps[b], p1)
            n += sum(x for r in mask(B.m[b], *B.shapes[b]) for x in r)
            g = B.args()
            H.m(I, 'update_linear_kwargs', H.list(p), b, *g[:4])
            w = B.args(b)
            H.m(B.single(b), 'update_linear_kwargs', p1, *w[:4])
            picks = [H.items(x) for x in g[1:4]]
            for ix, got, ref in zip((SRC_IDX, LIGHT_IDX, PS_IDX), picks, [H.items(x) for x in w[1:4]]):
                for u, v in zip(B.pick(got, ix, b), ref):
                    key = 'point_amp' if ix is PS_IDX else 'amp'
                    out += alike(H, item(H, u, key), item(H, v, key))
        return out + [(l, want), (H.attr(I, 'num_data_evaluate'), Const(n)), (H.attr(I, 'num_bands'), Const(2))]
    return rel


def joint(background=False, compute=None, **kw):
    """bands solved together: one set of amplitudes solves the normal equations of all computed bands."""
    def rel(H):
        B = Bands(H, select=False, small=True, nps=0, src=['GAUSSIAN'], light=['GAUSSIAN'], **kw)
        I = H.new(JB if background else JL, B.bands(), H.dict(**B.model), likelihood_mask_list=B.masks(), compute_bool=Const(None) if compute is None else H.list(compute))
        on = [b for b in range(2) if compute is None or compute[b]]
        models, errs, cov, p = H.items(H.m(I, 'image_linear_solve', *B.args(), inv_bool=False))
        models, p = H.items(models), H.flat(p)
        rows, out = [], []
        resid = []
        want = Const(0)
        for j, b in enumerate(on):
            one = B.single(b)
            A = H.flat(H.m(one, 'linear_response_matrix', *B.args(b)))
            m = len(A) // 2
            R = [A[:m], A[m:]]
            if background:
                R += [[Const(int(q == b))] * m for q in range(2)]
            mm = B.masked(b, models[j])
            d = B.masked(b, B.data[b])
            c = [H.mul(x, x) for x in B.masked(b, B.noise[b])]
            for i in range(m):
                t = Const(0)
                for r in range(len(R)):
                    t = H.op('+', t, H.mul(R[r][i], p[r]))
                out.append((mm[i], t))
            rows.append((R, [H.op('/', H.op('-', x, y), z) for x, y, z in zip(d, mm, c)]))
            for x, y, z in zip(d, mm, c):
                e = H.op('-', x, y)
                want = H.op('-', want, H.op('/', H.op('/', H.mul(e, e), z), 2))
        for r in range(len(rows[0][0])):
            t = Const(0)
            for R, e in rows:
                for a, x in zip(R[r], e):
                    t = H.op('+', t, H.mul(a, x))
            out.append((t, Const(0)))
        l, q = H.items(H.m(I, 'likelihood_data_given_model', *B.args()))
        g = B.args()
        H.m(I, 'update_linear_kwargs', q, 0, *g[:4])
        out += [(item(H, H.items(g[1])[0], 'amp'), p[0]), (item(H, H.items(g[2])[0], 'amp'), p[1])]
        return out + [(l, want)] + same(H, q, p)
    return rel


def around(C, i, x, y):
    """flux of the data around a pixel over that of the kernel, where 5x5 pixels fit."""
    H = C.H
    d, k = H.flat(C.data), H.flat(C.kernel)
    if not (2 < x < C.nx - 2 and 2 < y < C.ny - 2):
        return Const(0)
    a = b = Const(0)
    for j in range(-2, 3):
        for i in range(-2, 3):
            a = H.op('+', a, d[(y + j) * C.nx + x + i])
            b = H.op('+', b, k[(j + 2) * 5 + i + 2])
    return H.op('/', H.np('maximum', a, 0), b)


def point_variance(pix, shift=None, on=None, how='error_response', **kw):
    """the model error is the PSF variance around every selected point source times its estimated flux squared."""
    def rel(H):
        C = Scene(H, ps=tuple(len(w) for w in pix), pix=pix, psf=5, variance=True, on=on, cls=IL, **kw)
        a = H.dict(**offsets(C, shift)) if shift else Const(None)
        out = [Const(0)] * (C.nx * C.ny)
        v = H.flat(C.variance)
        n = 0
        for i, w in enumerate(pix):
            for x, y in w:
                s = shift[n] if shift and n < len(shift) else (0, 0)
                n += 1
                if on is not None and not on[i]:
                    continue
                x, y = x + s[0], y + s[1]
                amp = around(C, i, x, y)
                for j in range(5):
                    for l in range(5):
                        u, t = x + l - 2, y + j - 2
                        if 0 <= u < C.nx and 0 <= t < C.ny:
                            out[t * C.nx + u] = H.op('+', out[t * C.nx + u], H.mul(v[5 * j + l], amp, amp))
        c, e = H.items(H.m(C.I, 'error_response', C.kl, C.kp, a))
        on_ = [b for r in mask(C.m or 'all', C.nx, C.ny) for b in r]
        return same(H, e, out) + same(H, c, [H.op('+', H.mul(z, z), o) for z, o, b in zip(H.flat(C.noise), out, on_) if b])
    return rel


def one_point_model(k, shift, **kw):
    def rel(H):
        C = Scene(H, ps=(2, 1), **kw)
        a = H.dict(**offsets(C, shift))
        n = sum(len(w) for w in C.pix[:k])
        C.pix = [w if i == k else [] for i, w in enumerate(C.pix)]
        s = shift[n:n + len(C.pix[k])]
        return same(H, H.m(C.I, 'point_source', C.kp, C.kl, k=k, kwargs_special=a), points(C, s))
    return rel


def run(ctx):
    ctx.explanation = (
        'Lens, light, point source, data, PSF and image classes are evaluated together in the value-numbering domain: images of concrete shape with unknown pixel values, a general linear coordinate '
        'system, unknown model parameters and amplitudes. Every pixel and every amplitude must carry the value number the definition of an image model gives it.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('image shapes, model lists and masks are enumerated (small); pixel values, parameters, noise and coordinate systems are not')
    ctx.assumptions.append('matrices of the linear inversion are well conditioned')
    ctx.rule('sum', 'the image is the sum of the requested components')
    ctx.rule('brightness', 'each component image is the model brightness of the pixels, convolved with the PSF')
    ctx.rule('response', 'linear response times amplitudes is the image')
    ctx.rule('inversion', 'inverted amplitudes solve the normal equations')
    ctx.rule('source planes', 'each source component is evaluated where the ray meets its own plane')
    R = []
    for zs in ((1., 2., 3.), (2., 1., 3.), (3., 2., 1.), (2., 3., 2.), (2., 2., 2.), (1., 2.)):
        for zl in ((.5, 1.5), (1.5, .5), (.5, .7)) + (((2.5, .5, 1.5),) if max(zs) == 3 else ()):
            R.append(('source planes', 'sources at %s lenses at %s' % (zs, zl), mapped(zs, zl)))
    R.append(('source planes', 'scaled', mapped((1, 2, 3), (0, 0), scaled=True)))
    for f in flags():
        R.append(('sum', 'image %s' % (f,), image_sum(f)))
    R.append(('sum', 'unconvolved', image_sum((True, True, True), unconvolved=True)))
    for lab, kw in VARIANTS:
        R.append(('sum', 'image, %s' % lab, image_sum((True, True, True), **kw)))
        for kind, n in (('source', 3), ('lens light', 2), ('point source', 2)):
            R.append(('sum', 'components of %s, %s' % (kind, lab), components(kind, n, **kw)))
        for kind in ('source', 'lens light'):
            R.append(('brightness', '%s, %s' % (kind, lab), brightness(kind, **kw)))
            R.append(('brightness', '%s unconvolved, %s' % (kind, lab), brightness(kind, unconvolved=True, **kw)))
            R.append(('brightness', '%s component 1, %s' % (kind, lab), brightness(kind, k=1, **kw)))
        R.append(('brightness', 'source de-lensed, %s' % lab, brightness('source', de_lensed=True, **dict(kw, ext=False))))
        if not kw.get('pb'):
            R.append(('brightness', 'point sources, %s' % lab, point_flux(**kw)))
            R.append(('brightness', 'point sources unconvolved, %s' % lab, point_flux(unconvolved=True, **kw)))
            R.append(('brightness', 'point sources displaced, %s' % lab, point_flux(shift=[(1, 0), (-1, 0), (0, -1)], **kw)))
            R.append(('brightness', 'some point sources displaced, %s' % lab, point_flux(shift=[(0, 1)], **kw)))
        R.append(('response', lab, response(**kw)))
        R.append(('response', 'displaced, %s' % lab, response(shift=[(1, 0), (-1, 0), (0, -1)], **dict(kw, ext=False))))
    for m in ('scattered', 'two rows', 'all'):
        R.append(('response', 'mask %s' % m, response(m=m)))
    for m in ('scattered', 'all'):
        for inv in (False, True):
            R.append(('inversion', 'mask %s%s' % (m, ' inverse' if inv else ''), solved(inv, m=m, nx=4, ny=3, src=['GAUSSIAN'], light=['GAUSSIAN'])))
    decide(ctx, R, nd=True, n=3)
    for r, k in (('sum', 10), ('brightness', 20), ('response', 6), ('inversion', 2), ('source planes', 8)):
        ctx.min_ok(r, k)


VARIANTS = [('plain', {}), ('supersampled', dict(s=2)), ('no PSF', dict(psf=0)), ('flux scaling', dict(fs=True)), ('extinction', dict(ext=True)), ('primary beam', dict(pb=True)),
            ('3x4 pixels', dict(nx=4, ny=3, s=2, fs=True))]
