"""C03 registries, parameter lists, signatures and default limits agree."""
import ast
from ..engine import Bottom
from ..values import *
from ..lensprof import LensRunner, ARRAYS
from ..lenseval import NO_BUILD
from ..lightprof import LightRunner

# profiles whose parameters are tabulated arrays handed over as fixed settings: no scalar limits exist
TABULATED = {'INTERPOL', 'INTERPOL_SCALED', 'RADIAL_INTERPOL'}
# array-valued or integer settings (amplitude vectors, basis order, images, tabulated grids): never sampled against scalar limits
NO_LIMIT = {('lens', 'INTERPOL_SCALED'): {'grid_interp_x', 'grid_interp_y', 'f_', 'f_x', 'f_y', 'f_xx', 'f_yy', 'f_xy'},
            ('light', 'INTERPOL'): {'image'}}
for _n in ('SHAPELETS', 'SHAPELETS_POLAR', 'SHAPELETS_POLAR_EXP', 'SHAPELETS_ELLIPSE'):
    NO_LIMIT[('light', _n)] = {'amp', 'n_max'}
UNKNOWN = 'THIS_MODEL_DOES_NOT_EXIST'


def str_list(it, S, v):
    try:
        items, summ = it.iterate(v, S, None)
    except Bottom:
        return None
    if items is None or summ is not None or not all(isinstance(x, Const) and isinstance(x.v, str) for x in items):
        return None
    return [x.v for x in items]


def dict_consts(it, S, v):
    if not isinstance(v, Ref):
        return None
    h = it.hget(S, v)
    if h.kind != 'dict' or h.summ is not None:
        return None
    return dict(h.items)


def attr(it, S, o, a):
    h = it.hget(S, o)
    if h.kind == 'obj' and h.cls is not None and a not in h.items and h.cls.lookup(a)[0] is None and not h.cls.has_ext() \
            and h.cls.lookup('__getattr__')[0] is None:
        return None
    try:
        return it.getattr(o, a, S, None)
    except Bottom:
        return None


def check_object(ctx, it, S, fo, kind, name, methods):
    cls = it.hget(S, fo).cls
    where = '%s %s' % (ctx.prog.rel(cls.mod.path), cls.name)
    c = '%s %s' % (kind, name)
    ps = str_list(it, S, attr(it, S, fo, 'param_names'))
    if ps is None:
        ctx.undecided('param-list', c, 'parameter list not static')
        return None
    dup = sorted({p for p in ps if ps.count(p) > 1})
    odd = [p for p in ps if not p.isidentifier()]
    if dup or odd:
        ctx.bad('param-list', c, 'duplicate or malformed parameter names %s' % (dup + odd), where)
    else:
        ctx.ok('param-list', c)
    lims = {}
    for side in ('lower_limit_default', 'upper_limit_default'):
        v = attr(it, S, fo, side)
        if v is None:
            if name in TABULATED:
                continue
            ctx.bad('limits', '%s %s' % (c, side), 'no default limits', where)
            continue
        d = dict_consts(it, S, v)
        if d is None:
            ctx.undecided('limits', '%s %s' % (c, side), 'limits not static')
            continue
        lims[side] = d
        free = NO_LIMIT.get((kind, name), ())
        miss = [p for p in ps if p not in d and p not in free]
        extra = [k for k in d if k not in ps]
        if name in TABULATED and not d:
            continue
        if miss or extra:
            ctx.bad('limits', '%s %s' % (c, side), 'missing %s, undeclared %s' % (miss, extra), where)
        else:
            ctx.ok('limits', '%s %s' % (c, side))
    if len(lims) == 2:
        for p in ps:
            a, b = (lims[s].get(p) for s in ('lower_limit_default', 'upper_limit_default'))
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)):
                if a.v >= b.v:
                    ctx.bad('limit-order', '%s %s' % (c, p), 'lower limit %s is not below upper limit %s' % (a.v, b.v), where)
                else:
                    ctx.ok('limit-order', '%s %s' % (c, p))
    for m in methods:
        f = cls.lookup(m)
        f = f[0] if isinstance(f, tuple) else f
        if not isinstance(f, FuncV):
            continue
        a = f.node.args
        names = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + list(a.args)]
        skip = (0 if f.kind == 'static' else 1) + 2
        if len(names) < skip:
            if a.vararg is None:
                ctx.bad('signature', '%s.%s' % (c, m), 'takes no coordinate pair', where)
            continue
        pars = names[skip:]
        nd = len(a.defaults)
        req = [x for i, x in enumerate(names) if i >= skip and i < len(names) - nd]
        req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        pars += [x.arg for x in a.kwonlyargs]
        rej = [p for p in ps if p not in pars] if a.kwarg is None else []
        need = [p for p in req if p not in ps]
        if rej or need:
            ctx.bad('signature', '%s.%s' % (c, m), 'declared but not accepted: %s; required but not declared: %s' % (rej, need),
                    '%s:%d' % (where, f.node.lineno))
        else:
            ctx.ok('signature', '%s.%s' % (c, m))
    return ps


def dispatched(ctx, modname):
    """string literals that a module's name dispatch compares against the profile name."""
    m = ctx.prog.get(modname)
    ctx.need(m is not None, modname)
    return m


def run(ctx):
    ctx.explanation = (
        'Every name of the lens and light registries is resolved by abstract execution of the model constructor; the resulting class must '
        'declare well-formed parameter names, default limits for exactly those names, and evaluation methods that accept exactly those names. '
        'An unregistered name must end in an exception on every path.')
    ctx.rule('resolves', 'a registered name builds its profile')
    ctx.rule('rejects', 'an unregistered name raises')
    ctx.rule('param-list', 'declared parameter names are distinct identifiers')
    ctx.rule('limits', 'default limits exist for exactly the declared parameters')
    ctx.rule('limit-order', 'lower limit below upper limit')
    ctx.rule('signature', 'evaluation methods accept exactly the declared parameters')
    R = LensRunner(ctx.prog)
    names = R.names()
    ctx.need(len(names) > 60, 'registry of lens models')
    for n in names:
        def one():
            it = R.interp()
            S = State({}, {})
            try:
                lm = R.build(it, S, [n])
            except Bottom as b:
                if n in NO_BUILD:
                    return
                ctx.bad('resolves', 'lens ' + n, 'registered name is rejected: %s' % b.why, 'lenstronomy/LensModel/profile_list_base.py')
                return
            fo = R.func_obj(it, S, lm)
            if not isinstance(fo, Ref) or it.hget(S, fo).cls is None:
                ctx.undecided('resolves', 'lens ' + n, 'profile object not static')
                return
            ctx.ok('resolves', 'lens ' + n)
            check_object(ctx, it, S, fo, 'lens', n, () if n.startswith('LOS') else ('function', 'derivatives', 'hessian'))
        ctx.guard('resolves', 'lens ' + n, one)
    L = LightRunner(ctx.prog)
    lnames = L.names()
    ctx.need(len(lnames) > 20, 'registry of light models')
    for n in lnames:
        def one():
            it = L.interp()
            S = State({}, {})
            try:
                lm = L.build(it, S, [n])
            except Bottom as b:
                ctx.bad('resolves', 'light ' + n, 'registered name is rejected: %s' % b.why, 'lenstronomy/LightModel/light_model_base.py')
                return
            fo = L.func_list(it, S, lm)[0]
            if not isinstance(fo, Ref) or it.hget(S, fo).cls is None:
                ctx.undecided('resolves', 'light ' + n, 'profile object not static')
                return
            ctx.ok('resolves', 'light ' + n)
            check_object(ctx, it, S, fo, 'light', n, ('function',))
        ctx.guard('resolves', 'light ' + n, one)
    for kind, RR in (('lens', R), ('light', L)):
        for bad in (UNKNOWN, names[0] + '_', names[0].lower() if kind == 'lens' else lnames[0].lower()):
            it = RR.interp()
            S = State({}, {})
            try:
                RR.build(it, S, [bad])
                ctx.bad('rejects', '%s %s' % (kind, bad), 'unregistered name is accepted silently', '')
            except Bottom:
                ctx.ok('rejects', '%s %s' % (kind, bad))
    for what, l in (('lens', names), ('light', lnames)):
        d = sorted({x for x in l if l.count(x) > 1})
        if d:
            ctx.bad('resolves', what + ' registry', 'names listed twice: %s' % d, '')
    ctx.min_ok('resolves', 60)
    ctx.min_ok('signature', 120)
    ctx.min_ok('limits', 80)
