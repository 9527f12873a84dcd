"""Abstract evaluation of every registered light profile."""
from .engine import Interp, Frame, Bottom, Budget
from .values import *
from .grades import Domain, G, Bad, Ang
from . import poly
from .lenseval import flatten, labels

C = poly.const
ANG1 = set("""center_x center_y start_x start_y Rs Ra sigma sigma_min sigma_width radius R_sersic Rb w_c w_t w_c1 w_t1 w_c2 w_t2 w_c3 w_t3
s_scale beta scale length width r_c rc Re""".split())
ARR_AMP = {'MULTI_GAUSSIAN', 'MULTI_GAUSSIAN_ELLIPSE', 'MGE_SET', 'MGE_SET_ELLIPSE', 'SHAPELETS', 'SHAPELETS_POLAR',
           'SHAPELETS_POLAR_EXP', 'SHAPELETS_ELLIPSE', 'SLIT_STARLETS', 'SLIT_STARLETS_GEN2'}
AMPS = {'amp'}
PROFILE_KW = {'MGE_SET': {'n_comp': 3}, 'MGE_SET_ELLIPSE': {'n_comp': 3}}
INTS = {'n_max', 'n_scales', 'n_pixels'}
XODD = {'center_x', 'start_x'}
YODD = {'center_y', 'start_y'}
WX, WY = XODD, YODD


class LightRunner:
    def __init__(self, prog, budget=600000):
        self.prog = prog
        self.D = Domain(bases=('ang', 'amp'), parities=0, weights=2)
        self.budget = budget

    def interp(self):
        self.D.steps = {}
        it = Interp(self.prog, self.D, self.budget)
        m = it.load('lenstronomy.LightModel.light_model')
        it.frames = [Frame(None, m, None, None)]
        return it

    def names(self):
        it = self.interp()
        m = it.load('lenstronomy.LightModel.light_model_base')
        v = m.globals.get('_MODELS_SUPPORTED')
        if not isinstance(v, Ref):
            raise RuntimeError('registry of light models not found')
        return [x.v for x in it.hget(State({}, self.prog.static_heap), v).items]

    def build(self, it, S, names):
        c = it.load('lenstronomy.LightModel.light_model').globals['LightModel']
        kw = {'light_model_list': it.new_list(S, [Const(n) for n in names]),
              'profile_kwargs_list': it.new_list(S, [it.new_dict(S, {k: Const(v) for k, v in PROFILE_KW[n].items()}) if n in PROFILE_KW else NONE
                                                     for n in names])}
        return it.instantiate(c, [], kw, S, None)

    def func_list(self, it, S, lm):
        fl = it.getattr(lm, 'func_list', S, None)
        return list(it.hget(S, fl).items)

    def coord(self, axis, kind='a'):
        w = (poly.ONE, poly.ZERO) if axis == 'x' else (poly.ZERO, poly.ONE)
        return Num(self.D.mk(u=(C(1), poly.ZERO), w=w, deps=frozenset([axis])), frozenset([axis]) if kind == 'a' else EMPTY, kind)

    def param(self, prof, n, tag=''):
        D = self.D
        if n in INTS:
            return Const(2, frozenset(["%skwargs['%s']" % (tag, n)])) if n != 'n_pixels' else Const(16)
        w = [poly.ONE if n in WX else poly.ZERO, poly.ONE if n in WY else poly.ZERO]
        u = [C(1) if n in ANG1 else poly.ZERO, C(1) if n in AMPS else poly.ZERO]
        kind = 's'
        if n == 'amp' and prof in ARR_AMP or n == 'sigma' and prof.startswith('MULTI') or n == 'image':
            kind = 'a'
        lab = "%skwargs['%s']" % (tag, n)
        sym = poly.symbol(tag + n) if kind == 's' and n not in ANG1 and n not in AMPS else None
        return Num(D.mk(u=u, w=w, sym=sym, deps=frozenset([lab])), frozenset([lab]) if kind == 'a' else EMPTY, kind)


class LightRun:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.out = {}
        self.fail = {}
        self.compares = {}
        self.conds = {}
        self.functions = set()
        self.where = ''
        self.cls = None


def run_light(R, name, kinds=('a', 's'), methods=('function',)):
    it = R.interp()
    S = State({}, {})
    r = LightRun(name)
    try:
        lm = R.build(it, S, [name])
    except Bottom as b:
        r.fail['build'] = str(b.why)
        return r
    fo = R.func_list(it, S, lm)[0]
    if not isinstance(fo, Ref):
        r.fail['build'] = repr(fo)
        return r
    r.cls = it.hget(S, fo).cls
    r.where = '%s %s' % (R.prog.rel(r.cls.mod.path), r.cls.name)
    items, summ = it.iterate(it.getattr(fo, 'param_names', S, None), S, None)
    if items is None:
        r.fail['build'] = 'parameter list not static'
        return r
    r.params = [x.v for x in items]
    it.pos_labels = frozenset("kwargs['%s']" % p for p in r.params if p in WX or p in WY)
    for meth in methods:
        for kind in kinds:
            S2 = S.copy()
            kw = {p: R.param(name, p) for p in r.params}
            it.cond_deps = set()
            try:
                m = it.getattr(fo, meth, S2, None)
                v = it.call(m, [R.coord('x', kind), R.coord('y', kind)], kw, S2, None)
            except Bottom as b:
                r.fail[(meth, kind)] = 'does not return: %s' % (b.why,)
                continue
            except Budget:
                r.fail[(meth, kind)] = 'budget'
                continue
            vs = flatten(v)
            r.conds[(meth, kind)] = set(it.cond_deps)
            r.out[(meth, kind)] = list(zip(labels(meth, len(vs)), [it.pay(q, S2) if isinstance(q, (Num, Const)) else None for q in vs]))
    r.compares = dict(it.bad_compare)
    r.functions = set(it.funcs_seen)
    return r
