"""C18 multi-plane and line-of-sight lensing follow the lens recursion, for every ordering of the planes."""
import itertools
from fractions import Fraction
from ..engine import Bottom
from ..values import *
from .. import poly
from ..symlens import Bench, stub_profile, polynomial_profile, cosmo_stub, chi, patched_constants

MP = 'lenstronomy/LensModel/MultiPlane/multi_plane.py'
MPB = 'lenstronomy/LensModel/MultiPlane/multi_plane_base.py'
LOS = 'lenstronomy/LensModel/LineOfSight/single_plane_los.py'
s, c, add, sub, mul, div = poly.symbol, poly.const, poly.add, poly.sub, poly.mul, poly.div

# (label, lens redshifts in list order, source redshift, source redshift the reduced quantities refer to)
CONFIGS = [
    ('sorted', [0.3, 0.5, 0.7], 1.5, 1.5),
    ('unsorted', [0.7, 0.3, 0.5], 1.5, 1.5),
    ('reversed', [0.7, 0.5, 0.3], 1.5, 1.5),
    ('two lenses in one plane', [0.5, 0.3, 0.5], 1.5, 1.5),
    ('all in one plane', [0.5, 0.5, 0.5], 1.5, 1.5),
    ('source closer than convention', [0.5, 0.3, 0.7], 1.2, 1.5),
    ('source behind convention', [0.5, 0.3, 0.7], 1.8, 1.5),
    ('last lens behind the source', [0.3, 0.9, 0.5], 0.8, 1.5),
    ('two lenses behind the source', [0.9, 0.3, 1.0], 0.8, 1.5),
    ('all lenses behind the source', [0.9, 0.8, 1.0], 0.4, 1.5),
    ('one lens', [0.5], 1.5, 1.5),
]


class Plane:
    """independent statement of the recursion: x_j = theta chi_j - sum_{i<j} alphahat_i (chi_j - chi_i)."""

    def __init__(self, B, zl, pars, zconv):
        self.B = B
        self.zl = zl
        self.pars = pars
        self.zc = zconv

    def order(self):
        return sorted(range(len(self.zl)), key=lambda i: self.zl[i])

    def args(self, i, x, y):
        return dict(self.pars[i], x=x, y=y)

    def hat(self, i, x, y):
        z = self.zl[i]
        f = div(mul(chi(self.zc), c(1)), sub(chi(self.zc), chi(z)))      # D(0,s)/D(d,s), (1+z_s) cancels
        a = self.args(i, x, y)
        return mul(f, self.B.U.term('P%d' % i, 'ax', a)), mul(f, self.B.U.term('P%d' % i, 'ay', a))

    def trace(self, tx, ty, zstop, x0=None, y0=None, z0=0, incl=False):
        """comoving position and direction at zstop of the ray leaving (x0, y0) at z0 in direction (tx, ty); visited planes."""
        x, y = (c(0), c(0)) if x0 is None else (x0, y0)
        ax, ay = tx, ty
        z = z0
        vis = []
        for i in self.order():
            zi = self.zl[i]
            if zi > zstop or zi < z0 or (zi == z0 and not incl):
                continue
            d = sub(chi(zi), chi(z))
            x, y = add(x, mul(ax, d)), add(y, mul(ay, d))
            th = div(x, chi(zi)), div(y, chi(zi))
            vis.append((i, zi, x, y, th))
            hx, hy = self.hat(i, *th)
            ax, ay = sub(ax, hx), sub(ay, hy)
            z = zi
        d = sub(chi(zstop), chi(z))
        x, y = add(x, mul(ax, d)), add(y, mul(ay, d))
        return x, y, ax, ay, vis


def build(ctx, zl, zs, zc, stub=None, pars=None, extra=None):
    B = Bench(ctx.prog)
    names = ['SIS', 'SIE', 'NFW'][:len(zl)]
    kw = {'lens_redshift_list': list(zl), 'z_source': zs, 'z_source_convention': zc, 'multi_plane': True, 'cosmo': cosmo_stub(B)}
    kw.update(extra or {})
    lm = B.R.build(B.it, B.S, names, **kw)
    mp = B.it.getattr(lm, 'lens_model', B.S, None)
    mb = B.it.getattr(mp, 'multi_plane_base', B.S, None)
    fl = B.it.hget(B.S, B.it.getattr(mb, 'func_list', B.S, None)).items
    for i, r in enumerate(fl):
        (stub or (lambda B, r, i: stub_profile(B.it, B.S, r, 'P%d' % i, B.U)))(B, r, i)
    pars = pars or [{'p': 'p%d' % i, 'center_x': 'cx%d' % i, 'center_y': 'cy%d' % i} for i in range(len(zl))]
    return B, lm, mp, B.kw(pars), Plane(B, zl, [{a: s(b) for a, b in p.items()} for p in pars], zc)


def run(ctx):
    ctx.explanation = (
        'MultiPlane / SinglePlaneLOS are interpreted with value numbering; profiles are uninterpreted functions of their exact arguments, the cosmology is a flat '
        'background with one unknown comoving distance per redshift. Results must equal an independently written recursion over the redshift-ordered planes.')
    ctx.assumptions.append('flat background (comoving distances add); up to three planes in every order, ties, planes behind the source, source before/behind the convention redshift')
    ctx.rule('ray-shooting', 'source position = lens recursion over planes ordered by redshift and in front of the source')
    ctx.rule('deflection', 'multi-plane deflection = angle minus source position')
    ctx.rule('partial', 'ray shooting between two redshifts equals the recursion restricted to the planes in between')
    ctx.rule('arrival-time', 'arrival time = geometric delays between consecutive planes minus potential delays of each plane')
    ctx.rule('hessian', 'multi-plane Hessian is the exact Jacobian for planes with linear deflection')
    ctx.rule('observed-convention', 'observed lens positions are mapped to the positions the ray passes, in every plane order')
    ctx.rule('updates', 'after any sequence of source-redshift and cosmology updates a model equals one freshly built with the final settings')
    ctx.rule('between-planes', 'Hessian between two planes starts the ray at the requested position')
    ctx.rule('line-of-sight', 'deflection, Hessian and Fermat potential of the line-of-sight model follow the lens equation beta = A_os theta - A_ds alpha(A_od theta)')
    for cf in CONFIGS:
        ctx.guard('ray-shooting', cf[0], lambda cf=cf: rays(ctx, *cf))
        ctx.guard('arrival-time', cf[0], lambda cf=cf: arrival(ctx, *cf))
        ctx.guard('hessian', cf[0], lambda cf=cf: hess(ctx, *cf))
        if len(cf[1]) == 3:
            ctx.guard('observed-convention', cf[0], lambda cf=cf: observed(ctx, *cf))
    for n in range(1, 4):
        for ops in itertools.product((('z', 1.2), ('z', 1.8), ('cosmo', 'chj'), ('cosmo', 'chi')), repeat=n):
            if n < 3 or ctx.tier == "thorough" or ops[0] != ops[1] != ops[2]:
                ctx.guard('updates', str(ops), lambda ops=ops: updates(ctx, ops))
    ctx.guard('between-planes', 'hessian_z1z2', lambda: between(ctx))
    for mod in ('LOS', 'LOS_MINIMAL'):
        for pos in (0, 1, 2):
            ctx.guard('line-of-sight', '%s at %d' % (mod, pos), lambda mod=mod, pos=pos: los(ctx, mod, pos))
    ctx.min_ok('ray-shooting', 8)
    ctx.min_ok('line-of-sight', 6)


def rays(ctx, lab, zl, zs, zc):
    B, lm, mp, kw, P = build(ctx, zl, zs, zc)
    R = B.R
    tx, ty = R.num('tx'), R.num('ty')
    x, y, ax, ay, vis = P.trace(s('tx'), s('ty'), zs)
    beta = div(x, chi(zs)), div(y, chi(zs))
    B.compare(ctx, 'ray-shooting', lab, B.callm(lm, 'ray_shooting', tx, ty, kw), beta, MPB)
    B.compare(ctx, 'deflection', lab, B.callm(lm, 'alpha', tx, ty, kw), [sub(s('tx'), beta[0]), sub(s('ty'), beta[1])], MP)
    # partial ray shooting: start at 0, in front, on and between planes
    zz = (0, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 1.1)
    for z0, z1, incl in [(a, b, i) for a in zz for b in zz + (0.45,) for i in (False, True) if a < b]:
        q = [R.num(n) for n in ('x0', 'y0', 'ax0', 'ay0')]
        got = B.callm(mp, 'ray_shooting_partial_comoving', *q, Const(z0), Const(z1), kw, include_z_start=Const(incl))
        w = P.trace(s('ax0'), s('ay0'), z1, s('x0'), s('y0'), z0, incl)[:4]
        B.compare(ctx, 'partial', '%s %s->%s%s' % (lab, z0, z1, ' incl' if incl else ''), got, w, MPB)
        if z0 > 0:
            got = B.callm(mp, 'ray_shooting_partial', *q, Const(z0), Const(z1), kw, include_z_start=Const(incl))
            x0, y0 = mul(s('x0'), chi(z0)), mul(s('y0'), chi(z0))
            w = P.trace(s('ax0'), s('ay0'), z1, x0, y0, z0, incl)
            B.compare(ctx, 'partial', '%s angles %s->%s%s' % (lab, z0, z1, ' incl' if incl else ''), got, [div(w[0], chi(z1)), div(w[1], chi(z1)), w[2], w[3]], MPB)


def arrival(ctx, lab, zl, zs, zc):
    with patched_constants(ctx.prog):
        B, lm, mp, kw, P = build(ctx, zl, zs, zc)
        R = B.R
        try:
            got = B.callm(lm, 'arrival_time', R.num('tx'), R.num('ty'), kw)
            parts = B.callm(mp, 'geo_shapiro_delay', R.num('tx'), R.num('ty'), kw)
        except Bottom as b:
            ctx.bad('arrival-time', lab, 'always fails: %s' % b.why, MPB)
            return
    x, y, ax, ay, vis = P.trace(s('tx'), s('ty'), zs)
    u = div(mul(s('K_Mpc'), mul(s('K_arcsec'), s('K_arcsec'))), mul(s('K_c'), s('K_day_s')))
    geo, grav = c(0), c(0)
    pts = [(zi, th) for _, zi, _, _, th in vis] + [(zs, (div(x, chi(zs)), div(y, chi(zs))))]
    for (za, ta), (zb, tb) in zip(pts, pts[1:]):
        if za == zb:
            continue
        dx, dy = sub(tb[0], ta[0]), sub(tb[1], ta[1])
        tau = div(mul(chi(za), chi(zb)), sub(chi(zb), chi(za)))
        geo = add(geo, mul(mul(u, tau), div(add(mul(dx, dx), mul(dy, dy)), c(2))))
    for i, zi, _, _, th in vis:
        psi = B.U.term('P%d' % i, 'psi', P.args(i, *th))
        # D_dt = (1+z_d) D_d D_s / D_ds = chi_d chi_s / (chi_s - chi_d)
        ddt = div(mul(chi(zi), chi(zc)), sub(chi(zc), chi(zi)))
        grav = sub(grav, mul(mul(u, ddt), psi))
    B.compare(ctx, 'arrival-time', lab, got, [add(geo, grav)], MPB)
    B.compare(ctx, 'arrival-time', lab + ' parts', parts, [geo, grav], MPB)


def hess(ctx, lab, zl, zs, zc):
    co = {}

    def stub(B, r, i):
        co[i] = polynomial_profile(B, r, 'Q%d' % i, 2)
    B, lm, mp, kw, P = build(ctx, zl, zs, zc, stub)
    P.hat = lambda i, x, y: tuple(mul(div(chi(zc), sub(chi(zc), chi(zl[i]))), add(add(mul(co[i][a], x), mul(co[i][b], y)), co[i][d]))
                                  for a, b, d in (('xx', 'xy', 'x'), ('xy', 'yy', 'y')))

    def alpha(tx, ty):
        x, y = P.trace(tx, ty, zs)[:2]
        return sub(tx, div(x, chi(zs))), sub(ty, div(y, chi(zs)))
    a0 = alpha(c(0), c(0))
    ax = alpha(c(1), c(0))
    ay = alpha(c(0), c(1))
    want = [sub(ax[0], a0[0]), sub(ay[0], a0[0]), sub(ax[1], a0[1]), sub(ay[1], a0[1])]
    tx, ty, h = B.R.num('tx'), B.R.num('ty'), B.R.num('h', 's')
    B.compare(ctx, 'hessian', lab, B.callm(mp, 'hessian', tx, ty, kw, diff=h), want, MP, names=('f_xx', 'f_xy', 'f_yx', 'f_yy'))
    for meth in ('square', 'cross'):
        B.compare(ctx, 'hessian', lab + ' ' + meth, B.callm(lm, 'hessian', tx, ty, kw, diff=h, diff_method=Const(meth)), want, MP, names=('f_xx', 'f_xy', 'f_yx', 'f_yy'))


def observed(ctx, lab, zl, zs, zc):
    for inds in ([0], [1], [2], [0, 2], [2, 0], [1, 2, 0]):
        B, lm, mp, kw, P = build(ctx, zl, zs, zc, extra={'observed_convention_index': list(inds)})
        R = B.R
        tag = '%s observed=%s' % (lab, inds)
        order = sorted(inds, key=lambda i: zl[i])
        if len(set(zl[i] for i in inds)) < len(inds):
            continue        # order among equal redshifts does not matter for the mapping
        for i in order:
            x, y = P.trace(P.pars[i]['center_x'], P.pars[i]['center_y'], zl[i])[:2]
            P.pars[i] = dict(P.pars[i], center_x=div(x, chi(zl[i])), center_y=div(y, chi(zl[i])))
        out = B.items(B.callm(mp, 'observed2flat_convention', kw))
        if out is None:
            ctx.undecided('observed-convention', tag, 'list not tracked')
            continue
        for i in range(3):
            h = B.it.hget(B.S, out[i])
            B.compare(ctx, 'observed-convention', '%s lens %d' % (tag, i), Tup([h.items.get(n, Top()) for n in ('center_x', 'center_y', 'p')]),
                      [P.pars[i]['center_x'], P.pars[i]['center_y'], P.pars[i]['p']], MP)
        tx, ty = R.num('tx'), R.num('ty')
        x, y = P.trace(s('tx'), s('ty'), zs)[:2]
        B.compare(ctx, 'observed-convention', tag + ' ray shooting', B.callm(lm, 'ray_shooting', tx, ty, kw), [div(x, chi(zs)), div(y, chi(zs))], MP)


def updates(ctx, ops):
    """history independence, for multi-plane and single-plane models."""
    for multi in (True, False):
        res = []
        with patched_constants(ctx.prog):
            for fresh in (False, True):
                B = Bench(ctx.prog)
                cos = {}
                for tag in ('chi', 'chj'):
                    cos[tag] = cosmo_stub(B, tag)
                zs, cz = 1.5, 'chi'
                for k, v in ops:
                    zs, cz = (v, cz) if k == 'z' else (zs, v)
                zl = [0.7, 0.3, 0.5] if multi else [0.5, 0.5, 0.5]
                lm = B.R.build(B.it, B.S, ['SIS', 'SIE', 'NFW'], lens_redshift_list=list(zl), z_source_convention=1.5, multi_plane=multi, z_lens=0.5,
                               z_source=zs if fresh else 1.5, cosmo=cos[cz if fresh else 'chi'])
                names = {'SIS': 'P0', 'SIE': 'P1', 'NFW': 'P2'}

                def stub():
                    sub_ = B.it.getattr(lm, 'lens_model', B.S, None)
                    base = B.it.getattr(sub_, 'multi_plane_base', B.S, None) if multi else sub_
                    for i, r in enumerate(B.it.hget(B.S, B.it.getattr(base, 'func_list', B.S, None)).items):
                        stub_profile(B.it, B.S, r, 'P%d' % i, B.U)
                if not fresh:
                    for k, v in ops:
                        if k == 'z':
                            B.callm(lm, 'change_source_redshift', Const(v))
                        else:
                            B.callm(lm, 'update_cosmology', cos[v])
                stub()
                kw = B.kw([{'p': 'p%d' % i} for i in range(3)])
                tx, ty = B.R.num('tx'), B.R.num('ty')
                out = {}
                for m in ('ray_shooting', 'arrival_time', 'fermat_potential'):
                    r = B.callm(lm, m, tx, ty, kw)
                    out[m] = [B.val(q) for q in (B.items(r) or [r])]
                out['ddt_scaling'] = [B.val(B.it.getattr(lm, 'ddt_scaling', B.S, None))]
                out['z_source'] = [B.val(B.it.getattr(lm, 'z_source', B.S, None))]
                res.append(out)
        lab = '%s %s' % ('multi-plane' if multi else 'single-plane', ' '.join('%s=%s' % o for o in ops))
        for m in res[0]:
            if any(v is None for v in res[0][m] + res[1][m]):
                ctx.undecided('updates', lab + ' ' + m, 'value not tracked')
            elif res[0][m] == res[1][m]:
                ctx.ok('updates', lab + ' ' + m)
            else:
                ctx.bad('updates', lab + ' ' + m, 'computes %s instead of %s of a freshly built model' % (res[0][m], res[1][m]), 'lenstronomy/LensModel/lens_model.py')


def between(ctx):
    """the observer sits in the plane z1; the ray leaves the transverse position theta * T(0, z1) (held fixed) with direction theta."""
    for lab, zl, zs, zc in CONFIGS[:6]:
        for z1, z2 in ((0.3, 0.7), (0.3, 1.1), (0.5, 1.1), (0.4, 1.1), (0.3, 0.5)):
            tag = '%s z1=%s z2=%s' % (lab, z1, z2)
            co = {}

            def stub(B, r, i):
                co[i] = polynomial_profile(B, r, 'Q%d' % i, 3)
            B, lm, mp, kw, P = build(ctx, zl, zs, zc, stub)
            P.hat = lambda i, x, y: tuple(mul(div(chi(zc), sub(chi(zc), chi(zl[i]))), g) for g in grad(co[i], x, y))
            x0, y0 = mul(s('tx'), chi(z1)), mul(s('ty'), chi(z1))
            T = sub(chi(z2), chi(z1))

            def alpha(ax, ay):
                x, y = P.trace(ax, ay, z2, x0, y0, z1, False)[:2]
                return sub(ax, div(x, T)), sub(ay, div(y, T))
            want = [None] * 4
            for col, d in ((0, (1, 0)), (1, (0, 1))):
                vals = []
                for h in HS:
                    a = alpha(add(s('tx'), c(h * d[0])), add(s('ty'), c(h * d[1])))
                    b = alpha(s('tx'), s('ty'))
                    vals.append([div(sub(a[k], b[k]), c(h)) for k in (0, 1)])
                want[col] = limit([v[0] for v in vals])
                want[2 + col] = limit([v[1] for v in vals])
            got = []
            for h in HS:
                r = B.callm(lm, 'hessian_z1z2', Const(z1), Const(z2), B.R.num('tx'), B.R.num('ty'), kw, diff=Const(h))
                got.append([B.val(q) for q in (B.items(r) or [])])
            if any(len(g) != 4 or any(v is None for v in g) for g in got):
                ctx.undecided('between-planes', tag, 'value not tracked')
                continue
            got = [limit([g[k] for g in got]) for k in range(4)]
            bad = [n for n, g, w in zip(('f_xx', 'f_xy', 'f_yx', 'f_yy'), got, want) if g != w]
            if bad:
                ctx.bad('between-planes', tag, '%s is not the derivative of the deflection of a ray leaving z1 at the requested position' % ', '.join(bad), MP)
            else:
                ctx.ok('between-planes', tag)


HS = range(1, 12)


def limit(vals):
    """value at h -> 0 of a polynomial in h sampled at HS (degree < len(HS))."""
    t = c(0)
    for i, v in zip(HS, vals):
        w = Fraction(1)
        for j in HS:
            if j != i:
                w *= Fraction(-j, i - j)
        t = add(t, mul(c(w), v))
    return t


def grad(co, x, y):
    X, Y = {0: c(1), 1: x, 2: mul(x, x)}, {0: c(1), 1: y, 2: mul(y, y)}
    ax, ay = c(0), c(0)
    for k, a in co.items():
        i, j = k.count('x'), k.count('y')
        f = Fraction(1, fact(i) * fact(j))
        if i:
            ax = add(ax, mul(c(f * i), mul(a, mul(X[i - 1], Y[j]))))
        if j:
            ay = add(ay, mul(c(f * j), mul(a, mul(X[i], Y[j - 1]))))
    return ax, ay


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def los(ctx, mod, pos):
    B = Bench(ctx.prog)
    it, S, R = B.it, B.S, B.R
    names = ['SIS', 'SIE']
    names.insert(pos, mod)
    lm = B.R.build(it, S, names)
    sp = it.getattr(lm, 'lens_model', S, None)
    main = it.getattr(sp, '_main_lens', S, None)
    fl = it.hget(S, it.getattr(main, 'func_list', S, None)).items
    for i, r in enumerate(fl):
        stub_profile(it, S, r, 'P%d' % i, B.U)
    if mod == 'LOS':
        lk = {'%s_%s' % (a, b): '%s_%s' % (a, b) for a in ('kappa', 'gamma1', 'gamma2', 'omega') for b in ('od', 'os', 'ds')}
        m = {b: {a: s('%s_%s' % (a, b)) for a in ('kappa', 'gamma1', 'gamma2', 'omega')} for b in ('od', 'os', 'ds')}
    else:
        lk = {'%s_%s' % (a, b): '%s_%s' % (a, b) for a in ('kappa', 'gamma1', 'gamma2', 'omega') for b in ('od', 'los')}
        m = {b: {a: s('%s_%s' % (a, t)) for a in ('kappa', 'gamma1', 'gamma2', 'omega')} for b, t in (('od', 'od'), ('os', 'los'), ('ds', 'od'))}
    pars = [{'p': 'p0'}, {'p': 'p1'}]
    pars.insert(pos, lk)
    kw = B.kw(pars)

    def A(b):
        q = m[b]
        one = sub(c(1), q['kappa'])
        return ((sub(one, q['gamma1']), sub(q['omega'], q['gamma2'])), (sub(sub(c(0), q['gamma2']), q['omega']), add(one, q['gamma1'])))

    def mv(M, v):
        return add(mul(M[0][0], v[0]), mul(M[0][1], v[1])), add(mul(M[1][0], v[0]), mul(M[1][1], v[1]))

    def mm(M, N):
        cols = [mv(M, (N[0][j], N[1][j])) for j in (0, 1)]
        return ((cols[0][0], cols[1][0]), (cols[0][1], cols[1][1]))
    th = (s('x'), s('y'))
    td = mv(A('od'), th)

    def q(o):
        return add(*[B.U.term('P%d' % i, o, {'x': td[0], 'y': td[1], 'p': s('p%d' % i)}) for i in (0, 1)])
    al = mv(A('ds'), (q('ax'), q('ay')))
    os_ = mv(A('os'), th)
    beta = sub(os_[0], al[0]), sub(os_[1], al[1])
    x, y = R.num('x'), R.num('y')
    tag = '%s at %d' % (mod, pos)
    B.compare(ctx, 'line-of-sight', tag + ' ray shooting', B.callm(lm, 'ray_shooting', x, y, kw), beta, LOS)
    B.compare(ctx, 'line-of-sight', tag + ' alpha', B.callm(lm, 'alpha', x, y, kw), [sub(th[0], beta[0]), sub(th[1], beta[1])], LOS)
    H = ((q('fxx'), q('fxy')), (q('fyx'), q('fyy')))
    J = mm(mm(A('ds'), H), A('od'))
    o = A('os')
    want = [add(J[0][0], sub(c(1), o[0][0])), sub(J[0][1], o[0][1]), sub(J[1][0], o[1][0]), add(J[1][1], sub(c(1), o[1][1]))]
    B.compare(ctx, 'line-of-sight', tag + ' hessian', B.callm(lm, 'hessian', x, y, kw), want, LOS)
    # potential of the main lens alone
    def q0(o):
        return add(*[B.U.term('P%d' % i, o, {'x': th[0], 'y': th[1], 'p': s('p%d' % i)}) for i in (0, 1)])
    try:
        B.compare(ctx, 'line-of-sight', tag + ' potential', B.callm(lm, 'potential', x, y, kw), [q0('psi')], LOS)
    except Bottom as b:
        ctx.bad('line-of-sight', tag + ' potential', 'always fails: %s' % b.why, LOS)

    def inv(M):
        d = sub(mul(M[0][0], M[1][1]), mul(M[0][1], M[1][0]))
        return ((div(M[1][1], d), div(sub(c(0), M[0][1]), d)), (div(sub(c(0), M[1][0]), d), div(M[0][0], d)))
    Ad = A('od')
    AL = mm(mm(((Ad[0][0], Ad[1][0]), (Ad[0][1], Ad[1][1])), inv(A('ds'))), A('os'))
    bs = mv(inv(A('os')), (s('bx'), s('by')))
    f = sub(th[0], bs[0]), sub(th[1], bs[1])
    a = mv(AL, f)
    fp = sub(div(add(mul(f[0], a[0]), mul(f[1], a[1])), c(2)), q('psi'))
    got = B.callm(lm, 'fermat_potential', x, y, kw, x_source=R.num('bx'), y_source=R.num('by'))
    B.compare(ctx, 'line-of-sight', tag + ' fermat potential', got, [fp], LOS)
