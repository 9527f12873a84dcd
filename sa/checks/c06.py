"""C06 linear amplitudes: brightness is linear in them and every linear-basis routine agrees on count and order."""
from ..engine import Bottom, Budget
from ..values import *
from ..grades import Bad
from .. import poly
from ..lightprof import LightRunner, ARR_AMP
from .lightcommon import each_light
from .lenscommon import unit_ok, KIND

NO_SPLIT = {'SLIT_STARLETS', 'SLIT_STARLETS_GEN2'}   # evaluation on their own pixel grid, no split basis


def run(ctx):
    ctx.explanation = (
        'Two analyses. (1) every light profile is interpreted with an amplitude-scale grade: the brightness must have exponent exactly 1 in the '
        'amplitude on every branch. (2) the linear-basis routines (number of coefficients, unit-amplitude basis, write-back, read-out) are '
        'interpreted on a symbolic coefficient vector for every registered light model followed by a second component; all must agree on '
        'count and position, and the basis must not depend on the amplitudes in the keyword arguments.')
    ctx.assumptions.append('basis order n_max=2, two Gaussians / three MGE components stand for the array-valued amplitude sizes')
    ctx.rule('amp-linear', 'brightness has amplitude exponent 1')
    ctx.rule('basis-count', 'declared number of coefficients = length of the basis = coefficients consumed by the write-back')
    ctx.rule('basis-order', 'write-back hands coefficient i to the component of basis function i, read-out returns them in the same order')
    ctx.rule('basis-unit', 'basis functions do not depend on the amplitudes held in the keyword arguments')
    names = []
    for r in each_light(ctx):
        names.append(r.name)
        for (meth, kind), outs in r.out.items():
            for lab, p in outs:
                c = '%s.%s' % (r.name, meth)
                if p is None:
                    ctx.undecided('amp-linear', c, 'no numeric result')
                    continue
                st, why = unit_ok(p.u[1], 1)
                ctx.ob('amp-linear', c, st, '%s: %s' % (KIND[kind], why) if why else '', r.where)
    R = LightRunner(ctx.prog)
    for n in names:
        ctx.guard('basis-count', n, lambda: basis(ctx, R, n))
    ctx.min_ok('amp-linear', 15)
    ctx.min_ok('basis-count', 15)
    ctx.min_ok('basis-order', 15)


def lst(it, S, v):
    items, summ = it.iterate(v, S, None)
    return items if summ is None else None


def basis(ctx, R, name):
    it = R.interp()
    S = State({}, {})
    tail = 'SERSIC' if name != 'SERSIC' else 'GAUSSIAN'
    lm = R.build(it, S, [name, tail])
    where = 'lenstronomy/LightModel/linear_basis.py'
    pn = [[x.v for x in lst(it, S, q)] for q in lst(it, S, it.getattr(lm, 'param_name_list', S, None))]

    amps = {}

    def kwl(S):
        out = []
        for t, m, ps in (('a:', name, pn[0]), ('b:', tail, pn[1])):
            d = {}
            for p in ps:
                v = R.param(m, p, tag=t)
                if p == 'sigma' and m.startswith('MULTI'):
                    v = Tup([v, v], True)
                if p == 'amp' and m in ARR_AMP and amps.get(t):
                    v = Tup([v] * amps[t], True)
                d[p] = v
            out.append(it.new_dict(S, d))
        return it.new_list(S, out)

    def call(meth, args, S):
        return it.call(it.getattr(lm, meth, S, None), args, {}, S, None)

    c = name
    try:
        S1 = S.copy()
        nl = lst(it, S1, call('num_param_linear_list', [kwl(S1)], S1))
        counts = [x.v if isinstance(x, Const) else None for x in nl]
    except Bottom as b:
        ctx.bad('basis-count', c, 'number of linear coefficients raises: %s' % b.why, where + ' num_param_linear_list')
        return
    if None in counts or len(counts) != 2:
        if len(counts) != 2:
            ctx.bad('basis-count', c, '%d entries for 2 components' % len(counts), where + ' num_param_linear_list')
        else:
            ctx.undecided('basis-count', c, 'count not static: %s' % counts)
        return
    total = sum(counts)
    if name in ARR_AMP and counts[0] <= 1 or name not in ARR_AMP and counts[0] != 1:
        ctx.bad('basis-count', c, 'counts %d coefficients' % counts[0], where + ' num_param_linear_list')
    amps['a:'] = counts[0]
    # basis
    if name not in NO_SPLIT:
        try:
            S1 = S.copy()
            v = call('functions_split', [R.coord('x'), R.coord('y'), kwl(S1)], S1)
            resp, n = v.items
            resp = lst(it, S1, resp)
            if resp is None or not isinstance(n, Const):
                ctx.undecided('basis-count', c, 'basis length not static')
            elif len(resp) != total or n.v != total:
                ctx.bad('basis-count', c, 'basis has %d functions, reports %s, %d coefficients expected' % (len(resp), n.v, total),
                        where + ' functions_split')
            else:
                ctx.ok('basis-count', c)
            if resp:
                for i, q in enumerate(resp):
                    d = it.deps(q, S1)
                    bad = sorted(x for x in d if x.endswith("kwargs['amp']"))
                    lead = 'a:' if i < counts[0] else 'b:'
                    own = [x for x in d if x.startswith(lead)]
                    oth = [x for x in d if x[:2] in ('a:', 'b:') and not x.startswith(lead)]
                    if bad:
                        ctx.bad('basis-unit', '%s #%d' % (c, i), 'basis function depends on %s' % bad, where + ' functions_split')
                    elif oth:
                        ctx.bad('basis-order', '%s #%d' % (c, i), 'basis function %d uses parameters of another component: %s' % (i, oth), where + ' functions_split')
                    else:
                        ctx.ok('basis-unit', '%s #%d' % (c, i))
                    p = it.pay(q, S1) if isinstance(q, (Num, Const)) else None
                    if p is not None and isinstance(p.u[1], poly.Poly) and p.u[1] != poly.ZERO:
                        ctx.bad('basis-unit', '%s #%d' % (c, i), 'basis function scales with the amplitude', where)
        except Bottom as b:
            ctx.bad('basis-count', c, 'unit-amplitude basis raises: %s' % b.why, where + ' functions_split')
            return
    # write-back
    try:
        S1 = S.copy()
        off = 2
        syms = [Num(R.D.mk(deps=frozenset(['c%d' % i])), EMPTY, 's') for i in range(total + off)]
        kl = kwl(S1)
        v = call('update_linear', [Tup(syms, True), Const(off), kl], S1)
        kl2, i2 = v.items
        if isinstance(i2, Const) and i2.v != total + off:
            ctx.bad('basis-count', c, 'write-back consumes %d coefficients, %d declared' % (i2.v - off, total), where + ' update_linear')
        got = []
        for d in lst(it, S1, kl2):
            a = it.hget(S1, d).items.get('amp')
            if a is None:
                got.append('missing')
                continue
            if isinstance(a, Num):
                got.append(sorted(a.pay.deps))
                continue
            xs = lst(it, S1, a)
            got += [sorted(it.deps(x, S1)) for x in xs] if xs is not None else [None]
        want = [['c%d' % (k + off)] for k in range(total)]
        if None in got:
            ctx.undecided('basis-order', c, 'amplitudes not static')
        elif got != want:
            ctx.bad('basis-order', c, 'write-back places coefficients %s, expected %s' % (got, want), where + ' update_linear')
        else:
            ctx.ok('basis-order', c)
        back = lst(it, S1, call('linear_param_from_kwargs', [kl2], S1))
        if back is None:
            ctx.undecided('basis-order', c + ' read-out', 'not static')
        elif [sorted(it.deps(x, S1)) for x in back] != want:
            ctx.bad('basis-order', c + ' read-out', 'read-out returns %s' % [sorted(it.deps(x, S1)) for x in back], where + ' linear_param_from_kwargs')
        else:
            ctx.ok('basis-order', c + ' read-out')
    except Bottom as b:
        ctx.bad('basis-order', c, 'write-back raises: %s' % b.why, where + ' update_linear')
