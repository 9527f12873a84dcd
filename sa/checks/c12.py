"""C12 superposition and component selection: model quantity = sum of exactly the selected components, each evaluated with its own arguments."""
import itertools
from ..engine import Bottom
from ..values import *
from .. import poly
from ..symlens import SymLens, Uninterpreted, stub_profile, Bench

LENS = 'lenstronomy/LensModel/single_plane.py'
LIGHT = 'lenstronomy/LightModel/light_model_base.py'
OUT = {'potential': ('function', ('psi',)), 'alpha': ('derivatives', ('ax', 'ay')), 'hessian': ('hessian', ('fxx', 'fxy', 'fyx', 'fyy'))}


def selections(n):
    """every way the API lets a caller name a subset of n components."""
    out = [('None', None, tuple(range(n)))]
    for i in range(n):
        out.append(('%d' % i, i, (i,)))
    for r in range(n + 1):
        for sub in itertools.combinations(range(n), r):
            out.append(('tuple%s' % (sub,), tuple(sub), sub))
            out.append(('list%s' % (list(sub),), list(sub), sub))
            if r:
                out.append(('bool%s' % [i in sub for i in range(n)], [i in sub for i in range(n)], sub))
    out.append(('reversed', [n - 1, 0], (0, n - 1)))
    return out


def run(ctx):
    ctx.explanation = (
        'Profile methods are replaced by uninterpreted functions of their exact arguments; the aggregation code is interpreted with value numbering '
        '(random interpretation) and each result must be exactly the sum over the selected components, each evaluated at the requested position with its own '
        'keyword arguments, times the redshift scaling for lens quantities.')
    ctx.assumptions.append('three components per model list; aggregation loops are generic in the number of components')
    ctx.rule('lens-sum', 'potential, deflection, Hessian = scaling * sum over selected components')
    ctx.rule('lens-derived', 'ray shooting and Fermat potential use the same selection')
    ctx.rule('lens-radial', 'enclosed masses and density = sum over selected components without centre')
    ctx.rule('light-sum', 'surface brightness, 3-d light = sum over selected components')
    ctx.rule('light-flux', 'per-component flux list contains exactly the selected components in order')
    ctx.rule('light-basis', 'linear response contains exactly the selected components in order, at unit amplitude')
    lens(ctx)
    light(ctx)
    ctx.min_ok('lens-sum', 30)
    ctx.min_ok('light-sum', 15)


def lens(ctx):
    names = ['SIE', 'SIS', 'NFW']
    for lab, k, sub in selections(3):
        for m in ('potential', 'alpha', 'hessian', 'ray_shooting', 'fermat_potential', 'mass_3d', 'mass_2d', 'density'):
            ctx.guard('lens-sum', '%s k=%s' % (m, lab), lambda m=m, lab=lab, k=k, sub=sub: one_lens(ctx, names, m, lab, k, sub))


def one_lens(ctx, names, m, lab, k, sub):
    B = Bench(ctx.prog)
    it, S, R, U = B.it, B.S, B.R, B.U
    lm = R.build(it, S, names)
    sp = it.getattr(lm, 'lens_model', S, None)
    fl = it.hget(S, it.getattr(sp, 'func_list', S, None)).items
    ctx.need(len(fl) == 3, 'SinglePlane.func_list')
    meth = {'function': ('psi',), 'derivatives': ('ax', 'ay'), 'hessian': ('fxx', 'fxy', 'fyx', 'fyy'), 'mass_3d_lens': ('m3',), 'mass_2d_lens': ('m2',), 'density_lens': ('rho',)}
    for i, r in enumerate(fl):
        stub_profile(it, S, r, 'P%d' % i, U, meth)
    pars = [{'theta_E': 't0', 'center_x': 'c0', 'center_y': 'd0'}, {'theta_E': 't1', 'center_x': 'c1', 'center_y': 'd1'}, {'theta_E': 't2', 'center_x': 'c2'}]
    kw = B.kw(pars)
    B.callm(sp, 'change_redshift_scaling', R.num('scale', 's'))
    x, y = R.num('x'), R.num('y')
    sx, sy, sc = poly.symbol('x'), poly.symbol('y'), poly.symbol('scale')

    def total(out, **pos):
        tot = poly.const(0)
        for i in sub:
            q = {a: poly.symbol(b) for a, b in pars[i].items()}
            if 'r' in pos:
                q = {a: b for a, b in q.items() if a not in ('center_x', 'center_y')}
            tot = poly.add(tot, U.term('P%d' % i, out, dict(q, **pos)))
        return tot
    kk = {'k': R.py(it, S, k)} if k is not None else {}
    if m in OUT:
        rule = 'lens-sum'
        got = B.callm(lm, m, x, y, kw, **kk)
        want = [poly.mul(sc, total(o, x=sx, y=sy)) for o in OUT[m][1]]
    elif m == 'ray_shooting':
        rule = 'lens-derived'
        got = B.callm(lm, m, x, y, kw, **kk)
        want = [poly.sub(sx, poly.mul(sc, total('ax', x=sx, y=sy))), poly.sub(sy, poly.mul(sc, total('ay', x=sx, y=sy)))]
    elif m == 'fermat_potential':
        rule = 'lens-derived'
        got = B.callm(sp, m, x, y, kw, **kk)
        ax, ay = (poly.mul(sc, total(o, x=sx, y=sy)) for o in ('ax', 'ay'))
        want = [poly.sub(poly.div(poly.add(poly.mul(ax, ax), poly.mul(ay, ay)), poly.const(2)), poly.mul(sc, total('psi', x=sx, y=sy)))]
    else:
        rule = 'lens-radial'
        o = {'mass_3d': 'm3', 'mass_2d': 'm2', 'density': 'rho'}[m]
        got = B.callm(sp, m, R.num('r'), kw, **({'bool_list': R.py(it, S, k)} if k is not None else {}))
        want = [total(o, r=poly.symbol('r'))]
    B.compare(ctx, rule, '%s k=%s' % (m, lab), got, want, LENS)


def light(ctx):
    for lab, k, sub in selections(3):
        for m in ('surface_brightness', 'light_3d', 'total_flux', 'functions_split'):
            ctx.guard('light-sum', '%s k=%s' % (m, lab), lambda m=m, lab=lab, k=k, sub=sub: one_light(ctx, m, lab, k, sub))


def one_light(ctx, m, lab, k, sub):
    names = ['GAUSSIAN', 'HERNQUIST', 'GAUSSIAN'] if m != 'total_flux' else ['GAUSSIAN', 'SERSIC', 'GAUSSIAN']
    B = Bench(ctx.prog, 'lenstronomy.LightModel.light_model')
    it, S, R, U = B.it, B.S, B.R, B.U
    c = R.cls(it, 'lenstronomy.LightModel.light_model', 'LightModel')
    lm = it.instantiate(c, [it.new_list(S, [Const(n) for n in names])], {}, S, None)
    fl = it.hget(S, it.getattr(lm, 'func_list', S, None)).items
    ctx.need(len(fl) == 3, 'LightModel.func_list')
    for i, r in enumerate(fl):
        stub_profile(it, S, r, 'P%d' % i, U, {'function': ('f',), 'light_3d': ('l',), 'total_flux': ('flux',)})
    pars = [{'amp': 'a%d' % i, 's': 's%d' % i, 'center_x': 'c%d' % i, 'center_y': 'd%d' % i} for i in range(3)]
    kw = B.kw(pars)
    x, y = R.num('x'), R.num('y')
    sx, sy = poly.symbol('x'), poly.symbol('y')
    kk = {'k': R.py(it, S, k)} if k is not None else {}

    def term(i, out, drop=(), **pos):
        q = {a: poly.symbol(b) for a, b in pars[i].items() if a not in drop}
        return U.term('P%d' % i, out, dict(q, **pos))

    def total(out, drop=(), **pos):
        tot = poly.const(0)
        for i in sub:
            tot = poly.add(tot, term(i, out, drop, **pos))
        return tot
    c = '%s k=%s' % (m, lab)
    if m == 'surface_brightness':
        B.compare(ctx, 'light-sum', c, B.callm(lm, m, x, y, kw, **kk), [total('f', x=sx, y=sy)], LIGHT)
    elif m == 'light_3d':
        B.compare(ctx, 'light-sum', c, B.callm(lm, m, R.num('r'), kw, **kk), [total('l', ('center_x', 'center_y'), r=poly.symbol('r'))], LIGHT)
    elif m == 'total_flux':
        for norm in (False, True):
            got = B.callm(lm, m, kw, norm=Const(norm), **kk)
            want = [term(i, 'flux', **({'amp': poly.const(1)} if norm else {})) for i in sub]
            B.compare(ctx, 'light-flux', c + (' norm' if norm else ''), got, want, LIGHT, seq=True)
    else:
        got = B.callm(lm, m, x, y, kw, **kk)
        resp = B.item(got, 0)
        num = B.item(got, 1)
        want = [term(i, 'f', x=sx, y=sy, amp=poly.const(1)) for i in sub]
        B.compare(ctx, 'light-basis', c, resp, want, LIGHT, seq=True)
        if isinstance(num, Const):
            (ctx.ok if num.v == len(sub) else ctx.bad)('light-basis', c + ' count', 'reports %s responses for %d selected components' % (num.v, len(sub)), LIGHT)
        else:
            ctx.undecided('light-basis', c + ' count', 'not static')
