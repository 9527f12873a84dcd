"""Runs every registered lens profile through the abstract interpreter and reports grades."""
from .engine import Bottom, Budget, Frame
from .values import *
from .grades import Bad
from . import poly, lensprof
from .lensprof import LensRunner, WX, WY, base

# profiles that the constructor cannot build without extra settings, or that have no closed profile of their own
NO_BUILD = {'SYNTHESIS', 'TABULATED_DEFLECTIONS'}
METHODS = ('function', 'derivatives', 'hessian')


class ProfRun:
    """one profile, evaluated abstractly with array and with scalar coordinates."""
    def __init__(self, name):
        self.name = name
        self.params = []
        self.cls = None
        self.out = {}       # (method, kind) -> list of (label, Num pay | None)
        self.fail = {}      # (method, kind) -> reason
        self.compares = {}
        self.stacks = {}
        self.conds = {}


def labels(method, n):
    if method == 'derivatives' and n == 2:
        return ['f_x', 'f_y']
    if method == 'hessian' and n == 4:
        return ['f_xx', 'f_xy', 'f_yx', 'f_yy']
    if n == 1:
        return ['value']
    return ['out%d' % i for i in range(n)]


def flatten(v):
    if isinstance(v, Tup):
        out = []
        for x in v.items:
            out += flatten(x)
        return out
    return [v]


def run_profile(R, name, kinds=('a', 's'), methods=METHODS):
    it = R.interp()
    S = State({}, {})
    r = ProfRun(name)
    try:
        lm = R.build(it, S, [name])
    except Bottom as b:
        r.fail['build'] = str(b.why)
        return r
    fo = R.func_obj(it, S, lm)
    if not isinstance(fo, Ref):
        r.fail['build'] = repr(fo)
        return r
    r.cls = it.hget(S, fo).cls
    ps = R.param_names(it, S, fo)
    if ps is None:
        r.fail['build'] = 'parameter list not static'
        return r
    r.params = ps
    it.pos_labels = frozenset("kwargs['%s']" % p for p in ps if base(p) in WX or base(p) in WY)
    for meth in methods:
        for kind in kinds:
            S2 = S.copy()
            x, y = R.coord('x'), R.coord('y')
            if kind == 's':
                x, y = Num(x.pay, EMPTY, 's'), Num(y.pay, EMPTY, 's')
            kw = {p: R.param(name, p) for p in ps}
            it.cond_deps = set()
            try:
                m = it.getattr(fo, meth, S2, None)
                v = it.call(m, [x, y], kw, S2, None)
            except Bottom as b:
                r.fail[(meth, kind)] = 'does not return: %s' % (b.why,)
                continue
            except Budget:
                r.fail[(meth, kind)] = 'budget'
                continue
            vs = flatten(v)
            r.conds[(meth, kind)] = set(it.cond_deps)
            r.out[(meth, kind)] = list(zip(labels(meth, len(vs)), [it.pay(q, S2) if isinstance(q, (Num, Const)) else None for q in vs]))
            if not all(isinstance(q, (Num, Const)) for q in vs):
                r.out[(meth, kind)] = [(l, p) for l, p in r.out[(meth, kind)]]
    r.compares = dict(it.bad_compare)
    r.functions = set(it.funcs_seen)
    return r


def zero_like(c):
    return c in ('Z', 'L')
