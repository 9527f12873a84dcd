"""C20 lensing observables follow from potential, deflection and Hessian by their defining relations."""
from ..engine import Bottom
from ..values import *
from .. import poly
from ..symlens import Bench, stub_profile, polynomial_profile

LM = 'lenstronomy/LensModel/lens_model.py'
s, c, add, sub, mul, div = poly.symbol, poly.const, poly.add, poly.sub, poly.mul, poly.div


def run(ctx):
    ctx.explanation = (
        'LensModel is interpreted with value numbering over uninterpreted profile outputs (defining relations) and over profiles that are polynomials with '
        'symbolic coefficients (finite differences must be exact on them for every step size). Equality is decided on the canonical value of the returned expression.')
    ctx.assumptions.append('value numbering: equality of rational expressions decided by two random homomorphisms into GF(2^61-1), error probability < 1e-17')
    ctx.rule('defining-relation', 'convergence, shear, curl, magnification, ray shooting and Fermat potential equal their definition in terms of psi, alpha, Hessian')
    ctx.rule('finite-difference', 'numerical derivatives are exact on polynomial potentials, for every step size and stencil option')
    ctx.rule('arrival-time', 'arrival time is the Fermat potential in time-delay units, reduced by external convergence')
    for kind in ('single', 'los'):
        for k in (None, 0, (0, 1)):
            if kind == 'los' and k is not None:
                continue
            ctx.guard('defining-relation', kind, lambda kind=kind, k=k: relations(ctx, kind, k))
    for meth in ('square', 'cross'):
        ctx.guard('finite-difference', meth, lambda meth=meth: fd(ctx, meth))
    ctx.guard('finite-difference', 'alpha', lambda: fd_alpha(ctx))
    for hd in (False, True):
        ctx.guard('finite-difference', 'flexion', lambda hd=hd: fd_flexion(ctx, hd))
    ctx.guard('arrival-time', 'arrival_time', lambda: arrival(ctx))
    ctx.min_ok('defining-relation', 8)
    ctx.min_ok('finite-difference', 4)


def model(ctx, names=('SIS', 'SHEAR'), stub=None, **kw):
    B = Bench(ctx.prog)
    lm = B.R.build(B.it, B.S, names, **kw)
    sp = B.it.getattr(lm, 'lens_model', B.S, None)
    fl = B.it.hget(B.S, B.it.getattr(sp, 'func_list', B.S, None)).items
    for i, r in enumerate(fl):
        if stub:
            stub(B, r, i)
        else:
            stub_profile(B.it, B.S, r, 'P%d' % i, B.U)
    pars = [{'p': 'p%d' % i} for i in range(len(fl))]
    return B, lm, sp, B.kw(pars)


def relations(ctx, kind, k):
    B, lm, sp, kw = model(ctx)
    R = B.R
    x, y = R.num('x'), R.num('y')
    sel = (0, 1) if k is None or k == (0, 1) else (k,)

    def q(o):
        t = c(0)
        for i in sel:
            t = add(t, B.U.term('P%d' % i, o, {'x': s('x'), 'y': s('y'), 'p': s('p%d' % i)}))
        return t
    fxx, fxy, fyx, fyy, psi, ax, ay = (q(o) for o in ('fxx', 'fxy', 'fyx', 'fyy', 'psi', 'ax', 'ay'))
    kk = {} if k is None else {'k': R.py(B.it, B.S, k)}
    half = c(0.5)
    det = sub(mul(sub(c(1), fxx), sub(c(1), fyy)), mul(fxy, fyx))
    want = {
        'kappa': [mul(half, add(fxx, fyy))], 'curl': [sub(fxy, fyx)], 'gamma': [mul(half, sub(fxx, fyy)), fxy],
        'magnification': [div(c(1), det)], 'ray_shooting': [sub(s('x'), ax), sub(s('y'), ay)], 'hessian': [fxx, fxy, fyx, fyy],
        'alpha': [ax, ay], 'potential': [psi],
    }
    for m, w in want.items():
        got = B.callm(lm, m, x, y, kw, **kk)
        if m == 'gamma':
            # gamma2 may be either off-diagonal term or their mean: all equal for a potential
            alt = [w[0], fyx]
            alt2 = [w[0], mul(half, add(fxy, fyx))]
            it_ = B.items(got)
            if it_ and len(it_) == 2 and any(B.same(it_[1], z[1]) == 'ok' for z in (alt, alt2)):
                w = [w[0], B.val(it_[1])]
        B.compare(ctx, 'defining-relation', '%s k=%s' % (m, k), got, w, LM)
    if k is None:
        got = B.callm(lm, 'fermat_potential', x, y, kw)
        B.compare(ctx, 'defining-relation', 'fermat_potential', got, [sub(mul(half, add(mul(ax, ax), mul(ay, ay))), psi)], LM)
        got = B.callm(lm, 'fermat_potential', x, y, kw, x_source=R.num('bx'), y_source=R.num('by'))
        gx, gy = sub(s('x'), s('bx')), sub(s('y'), s('by'))
        B.compare(ctx, 'defining-relation', 'fermat_potential with source position', got, [sub(mul(half, add(mul(gx, gx), mul(gy, gy))), psi)], LM)


def fd(ctx, meth):
    co = {}

    def stub(B, r, i):
        co[i] = polynomial_profile(B, r, 'Q%d' % i, 2)
    B, lm, sp, kw = model(ctx, stub=stub)
    R = B.R
    x, y, d = R.num('x'), R.num('y'), R.num('h', 's')
    want = [add(co[0][m], co[1][m]) for m in ('xx', 'xy', 'xy', 'yy')]
    opt = {'diff': d, 'diff_method': Const(meth)}
    B.compare(ctx, 'finite-difference', 'hessian %s' % meth, B.callm(lm, 'hessian', x, y, kw, **opt), want, LM)
    B.compare(ctx, 'finite-difference', 'kappa %s' % meth, B.callm(lm, 'kappa', x, y, kw, **opt), [mul(c(0.5), add(want[0], want[3]))], LM)
    B.compare(ctx, 'finite-difference', 'gamma %s' % meth, B.callm(lm, 'gamma', x, y, kw, **opt), [mul(c(0.5), sub(want[0], want[3])), want[1]], LM)
    B.compare(ctx, 'finite-difference', 'curl %s' % meth, B.callm(lm, 'curl', x, y, kw, **opt), [c(0)], LM)
    det = sub(mul(sub(c(1), want[0]), sub(c(1), want[3])), mul(want[1], want[2]))
    B.compare(ctx, 'finite-difference', 'magnification %s' % meth, B.callm(lm, 'magnification', x, y, kw, **opt), [div(c(1), det)], LM)
    one = [co[1][m] for m in ('xx', 'xy', 'xy', 'yy')]
    B.compare(ctx, 'finite-difference', 'hessian %s k=1' % meth, B.callm(lm, 'hessian', x, y, kw, k=Const(1), **opt), one, LM)


def fd_alpha(ctx):
    co = {}

    def stub(B, r, i):
        co[i] = polynomial_profile(B, r, 'Q%d' % i, 2)
    B, lm, sp, kw = model(ctx, stub=stub)
    R = B.R
    x, y, d = R.num('x'), R.num('y'), R.num('h', 's')
    X, Y = s('x'), s('y')
    want = []
    for a, b, e in (('xx', 'xy', 'x'), ('xy', 'yy', 'y')):
        t = c(0)
        for i in co:
            t = add(t, add(add(mul(co[i][a], X), mul(co[i][b], Y)), co[i][e]))
        want.append(t)
    B.compare(ctx, 'finite-difference', 'alpha', B.callm(lm, 'alpha', x, y, kw, diff=d), want, LM)


def fd_flexion(ctx, hd):
    co = {}

    def stub(B, r, i):
        co[i] = polynomial_profile(B, r, 'Q%d' % i, 3)
    B, lm, sp, kw = model(ctx, stub=stub)
    R = B.R
    want = [add(co[0][m], co[1][m]) for m in ('xxx', 'xxy', 'xyy', 'yyy')]
    got = B.callm(lm, 'flexion', R.num('x'), R.num('y'), kw, diff=R.num('h', 's'), hessian_diff=Const(hd))
    B.compare(ctx, 'finite-difference', 'flexion hessian_diff=%s' % hd, got, want, LM)


def arrival(ctx):
    B, lm, sp, kw = model(ctx)
    R = B.R
    B.setattrs(lm, _lensCosmo=B.stub_obj({'time_delay_units': B.U.native('LC', ('td',), ('fermat_pot',))}))
    psi = [B.U.term('P%d' % i, 'psi', {'x': s('x'), 'y': s('y'), 'p': s('p%d' % i)}) for i in (0, 1)]
    gx, gy = sub(s('x'), s('bx')), sub(s('y'), s('by'))
    fp = sub(mul(c(0.5), add(mul(gx, gx), mul(gy, gy))), add(*psi))
    want = mul(B.U.term('LC', 'td', {'fermat_pot': fp}), sub(c(1), s('kext')))
    got = B.callm(lm, 'arrival_time', R.num('x'), R.num('y'), kw, kappa_ext=R.num('kext', 's'), x_source=R.num('bx'), y_source=R.num('by'))
    B.compare(ctx, 'arrival-time', 'arrival_time', got, [want], LM)
