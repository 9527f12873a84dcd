"""C02 the flat parameter vector and the keyword arguments are inverse views of each other."""
from ..engine import Bottom, Budget
from ..values import *
from ..vec import VecRunner, unknown
from ..lensprof import LensRunner, ARRAYS
from ..lenseval import NO_BUILD
from ..lightprof import LightRunner, ARR_AMP, PROFILE_KW

LENS = 'lenstronomy.LensModel.lens_param'
LIGHT = 'lenstronomy.LightModel.light_param'
PS = 'lenstronomy.PointSource.point_source_param'
SPECIAL = 'lenstronomy.Sampling.special_param'
PARAM = 'lenstronomy.Sampling.parameters'
WHERE = {LENS: 'lenstronomy/LensModel/lens_param.py', LIGHT: 'lenstronomy/LightModel/light_param.py',
         PS: 'lenstronomy/PointSource/point_source_param.py', SPECIAL: 'lenstronomy/Sampling/special_param.py',
         PARAM: 'lenstronomy/Sampling/parameters.py'}
OFF = 2


def same(want, got):
    """'ok' identical symbol, 'weak' depends on exactly that entry (bounded), 'bad', or 'undecided'."""
    if isinstance(want, list):
        if not isinstance(got, list):
            return 'undecided' if unknown(got) else 'bad'
        if len(want) != len(got):
            return 'bad'
        r = [same(a, b) for a, b in zip(want, got)]
        for s in ('bad', 'undecided', 'weak'):
            if s in r:
                return s
        return 'ok'
    if isinstance(got, tuple) and got and got[0] == '?':
        if isinstance(got[1], tuple):
            if isinstance(want, str) and got[1] == (want[2:],):
                return 'weak'
            labs = set(got[1])
            if isinstance(want, str) and want.startswith('s:') and labs and want[2:] not in labs:
                return 'bad'
        return 'undecided'
    return 'ok' if want == got else 'bad'


def lab(v):
    return v


class Pack:
    """drive set / num / get of one packing object."""

    def __init__(self, ctx, R, rule, construct, where):
        self.ctx, self.R, self.rule, self.c, self.where = ctx, R, rule, construct, where

    def bad(self, why, kind=''):
        self.ctx.bad(self.rule, self.c + kind, why, self.where)

    def run(self, it, S, o, comps, fixed, aliases=None, check_names=True, getkw=None, single=False):
        """comps: list of dict name -> abstract value (free and fixed), fixed: list of dicts."""
        R = self.R

        def call(m, *a, **k):
            return it.call(it.getattr(o, m, S, None), list(a), k, S, None)
        st = 'ok'
        try:
            kl = it.new_list(S, [it.new_dict(S, dict(d)) for d in comps])
            arg = it.hget(S, kl).items[0] if single else kl
            a = call('set_params', arg)
            vec = R.unpy(it, S, a)
        except Bottom as b:
            self.bad('packing raises: %s' % b.why)
            return None
        if not isinstance(vec, list):
            self.ctx.undecided(self.rule, self.c, 'packed vector not static')
            return None
        if any(isinstance(x, (list, dict)) for x in vec):
            self.bad('an array-valued parameter is packed as one entry: %s' % [x for x in vec if isinstance(x, (list, dict))][0], ' array parameter as one entry')
            return None
        n = len(vec)
        try:
            num = R.unpy(it, S, call('num_param'))
        except Bottom as b:
            self.bad('parameter count raises: %s' % b.why)
            return None
        if unknown(num) or not isinstance(num, list) or len(num) != 2:
            self.ctx.undecided(self.rule, self.c, 'parameter count not static: %s' % str(num)[:100])
        else:
            if num[0] != n:
                self.bad('%s parameters counted, %d packed' % (num[0], n))
            if len(num[1]) != n:
                self.bad('%d parameter names listed, %d packed' % (len(num[1]), n))
            elif check_names:
                for x, nm in zip(vec, num[1]):
                    if isinstance(x, str) and x.startswith('s:'):
                        key = x[2:].split('[')[0]
                        if '(' in key:
                            key = key.split('(')[1].rstrip(')')
                        k, _, p = key.partition('.')
                        nm = nm[4:]
                        if nm != p and not nm.startswith(p + '_'):
                            self.bad('entry holds %s but is named %s' % (key, nm))
                        elif nm != p and not nm.endswith(k):
                            self.bad('entry of component %s is named %s' % (k, nm))
        try:
            items = it.iterate(a, S, None)[0]
            args = Tup([R.sym('pre%d' % i) for i in range(OFF)] + list(items) + [R.sym('post%d' % i) for i in range(3)], True)
            out = R.unpy(it, S, call('get_params', args, Const(OFF), **(getkw or {})))
        except Bottom as b:
            self.bad('unpacking raises: %s' % b.why)
            return None
        if not isinstance(out, list) or len(out) != 2:
            self.ctx.undecided(self.rule, self.c, 'unpacked value not static')
            return None
        kw, i2 = out
        if single:
            kw = [kw]
        if isinstance(i2, int) and i2 != OFF + n:
            self.bad('unpacking consumes %d entries, %d packed' % (i2 - OFF, n))
        if not isinstance(kw, list) or len(kw) != len(comps):
            self.bad('%s components unpacked, %d packed' % (len(kw) if isinstance(kw, list) else '?', len(comps)))
            return None
        for k, (d, f, g) in enumerate(zip(comps, fixed, kw)):
            if not isinstance(g, dict):
                st = 'undecided'
                continue
            for p, v in d.items():
                src = f.get(p, v)
                want = R.unpy(it, S, src)
                if p not in g:
                    self.bad('parameter %s of component %d is lost in unpacking' % (p, k))
                    continue
                r = same(want, g[p])
                if r == 'bad':
                    self.bad('parameter %s of component %d comes back as %s instead of %s' % (p, k, short(g[p]), short(want)))
                elif r == 'undecided':
                    st = 'undecided'
            extra = [p for p in g if p not in d]
            if extra:
                self.bad('unpacking invents parameters %s' % extra)
        if st == 'ok':
            self.ctx.ok(self.rule, self.c)
        else:
            self.ctx.undecided(self.rule, self.c, 'some values not tracked')
        return n


def short(x):
    s = str(x)
    return s if len(s) < 80 else s[:77] + '...'


def fix_patterns(ps, tier):
    """sets of fixed parameter positions."""
    out = [frozenset(), frozenset(ps[::2]), frozenset(ps[1::2])]
    out += [frozenset([p]) for p in ps]
    if tier == 'thorough':
        out += [frozenset(ps) - {p} for p in ps]
        out += [frozenset([p, q]) for i, p in enumerate(ps) for q in ps[i + 1:]]
    out.append(frozenset(ps))
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def names_of(runner, name, light):
    it = runner.interp()
    S = State({}, {})
    lm = runner.build(it, S, [name])
    fo = runner.func_list(it, S, lm)[0] if light else runner.func_obj(it, S, lm)
    pn = it.getattr(fo, 'param_names', S, None)
    items, summ = it.iterate(pn, S, None)
    return [x.v for x in items]


def lens_values(R, k, name, ps):
    d, must = {}, set()
    for p in ps:
        lb = '%d.%s' % (k, p)
        if name in ('SHAPELETS_POLAR', 'SHAPELETS_CART') and p == 'coeffs':
            d[p] = R.arr(lb, 6)
        elif name.startswith('MULTI_GAUSSIAN') and p in ('amp', 'sigma'):
            d[p] = R.arr(lb, 3)
            if p == 'sigma':
                must.add(p)
        elif p in ARRAYS and p not in ('amp', 'sigma'):
            d[p] = R.arr(lb, 3)
            must.add(p)
        else:
            d[p] = R.sym(lb)
    return d, must


def light_values(R, k, name, ps):
    d, must = {}, set()
    nmax, npix, nsc = 2, 4, 2
    size = {'SHAPELETS': 6, 'SHAPELETS_POLAR': 6, 'SHAPELETS_ELLIPSE': 6, 'SHAPELETS_POLAR_EXP': 9, 'MULTI_GAUSSIAN': 3,
            'MULTI_GAUSSIAN_ELLIPSE': 3, 'MGE_SET': 3, 'MGE_SET_ELLIPSE': 3, 'SLIT_STARLETS': 8, 'SLIT_STARLETS_GEN2': 8}
    for p in ps:
        lb = '%d.%s' % (k, p)
        if p == 'n_max':
            d[p] = Const(nmax)
            must.add(p)
        elif p == 'n_pixels':
            d[p] = Const(npix)
            must.add(p)
        elif p == 'n_scales':
            d[p] = Const(nsc)
            must.add(p)
        elif p == 'amp' and name in size:
            d[p] = R.arr(lb, size[name])
        elif p == 'sigma' and name.startswith('MULTI'):
            d[p] = R.arr(lb, 3)
            must.add(p)
        elif p == 'image':
            d[p] = R.arr(lb, 3)
            must.add(p)
        elif name.startswith('SLIT') and p in ('scale', 'center_x', 'center_y'):
            d[p] = R.sym(lb)
            must.add(p)
        else:
            d[p] = R.sym(lb)
    return d, must


def fixed_value(R, v, k, p):
    if isinstance(v, Tup):
        return R.arr('fix%d.%s' % (k, p), len(v.items))
    if isinstance(v, Const):
        return v
    return R.sym('fix%d.%s' % (k, p))


def run(ctx):
    ctx.explanation = (
        'Parameter vectors are interpreted symbolically: every keyword argument is a distinct symbol and is followed through packing, counting and '
        'unpacking (values, order, names, offsets, fixed values, log10 sampling). Instances: every registered lens and light model as first and '
        'second component and several sets of fixed parameters, all point-source models, all special-parameter options, and complete '
        'multi-section configurations.')
    ctx.assumptions.append('array parameters are represented by small fixed sizes (6 shapelet, 3 Gaussian amplitudes); parameters documented as settings are always fixed')
    ctx.rule('lens-vector', 'lens parameters: unpack(pack(kwargs)) = kwargs; count, names and consumed length agree')
    ctx.rule('light-vector', 'light parameters: same, with and without linear amplitudes')
    ctx.rule('point-source-vector', 'point source parameters: same')
    ctx.rule('special-vector', 'special parameters: same')
    ctx.rule('full-vector', 'complete configuration: pack, unpack, count and both limit vectors agree entry by entry')
    lens(ctx)
    light(ctx)
    point_source(ctx)
    special(ctx)
    full(ctx)
    ctx.min_ok('lens-vector', 60)
    ctx.min_ok('light-vector', 25)
    ctx.min_ok('point-source-vector', 4)
    ctx.min_ok('special-vector', 4)
    ctx.min_ok('full-vector', 3)


def lens(ctx):
    LR = LensRunner(ctx.prog)
    R = VecRunner(ctx.prog, LENS)
    names = LR.names()
    ctx.need(len(names) > 60, 'registry of lens models')
    for name in names:
        if name in NO_BUILD:
            continue

        def one():
            try:
                ps = names_of(LR, name, False)
            except Bottom:
                return
            pair = [name, 'SIS']
            tailp = ['theta_E', 'center_x', 'center_y']
            pats = fix_patterns(ps, ctx.tier)
            for order in ((0, 1), (1, 0)):
                for pat in pats if order == (0, 1) else pats[:2]:
                    logs = [[]]
                    scal = [p for p in ps if p not in ARRAYS]
                    if not pat and scal:
                        logs = [[], scal[:1], scal[-1:]]
                    for lg in logs:
                        it = R.interp()
                        S = State({}, {})
                        cls = R.cls(it, LENS, 'LensParam')
                        ctx.need(cls is not None, 'LensParam')
                        model = [pair[i] for i in order]
                        pl = [[ps, tailp][i] for i in order]
                        comps, fixed, lgs = [], [], []
                        for k, (m, pp) in enumerate(zip(model, pl)):
                            d, must = lens_values(R, k, m, pp)
                            f = {p: fixed_value(R, d[p], k, p) for p in pp if m == name and (p in pat or p in must)}
                            comps.append(d)
                            fixed.append(f)
                            lgs.append(list(lg) if m == name else [])
                        o = it.instantiate(cls, [R.py(it, S, model), R.py(it, S, [dict(f) for f in fixed])],
                                           {'num_shapelet_lens': Const(6), 'kwargs_logsampling': R.py(it, S, lgs)}, S, None)
                        P = Pack(ctx, R, 'lens-vector', name, WHERE[LENS])
                        P.run(it, S, o, comps, fixed)
                        ctx.functions |= set(it.funcs_seen)
        ctx.guard('lens-vector', name, one)
    # shapelet coefficients with the position solver
    for ni, cut in ((4, 6), (2, 3)):
        for name in ('SHAPELETS_CART', 'SHAPELETS_POLAR'):
            it = R.interp()
            S = State({}, {})
            cls = R.cls(it, LENS, 'LensParam')
            d = {'coeffs': Tup([Const(0)] * cut + [R.sym('0.coeffs[%d]' % i) for i in range(10 - cut)], True), 'beta': R.sym('0.beta'),
                 'center_x': R.sym('0.center_x'), 'center_y': R.sym('0.center_y')}
            e = {p: R.sym('1.' + p) for p in ('theta_E', 'center_x', 'center_y')}
            o = it.instantiate(cls, [R.py(it, S, [name, 'SIS']), R.py(it, S, [{}, {}])],
                               {'num_shapelet_lens': Const(10), 'num_images': Const(ni), 'solver_type': Const('SHAPELETS')}, S, None)
            Pack(ctx, R, 'lens-vector', '%s with %d-image solver' % (name, ni), WHERE[LENS]).run(it, S, o, [d, e], [{}, {}])


def light(ctx):
    LR = LightRunner(ctx.prog)
    R = VecRunner(ctx.prog, LIGHT)
    names = LR.names()
    ctx.need(len(names) > 20, 'registry of light models')
    for name in names:
        def one(lin):
            try:
                ps = names_of(LR, name, True)
            except Bottom:
                return
            pair = [name, 'GAUSSIAN']
            tailp = ['amp', 'sigma', 'center_x', 'center_y']
            pats = fix_patterns(ps, ctx.tier)
            for order in ((0, 1), (1, 0)):
                for pat in pats if order == (0, 1) else pats[:2]:
                    it = R.interp()
                    S = State({}, {})
                    cls = R.cls(it, LIGHT, 'LightParam')
                    ctx.need(cls is not None, 'LightParam')
                    model = [pair[i] for i in order]
                    pl = [[ps, tailp][i] for i in order]
                    comps, fixed = [], []
                    for k, (m, pp) in enumerate(zip(model, pl)):
                        d, must = light_values(R, k, m, pp)
                        f = {p: fixed_value(R, d[p], k, p) for p in pp if m == name and (p in pat or p in must)}
                        comps.append(d)
                        fixed.append(f)
                    pk = [dict(PROFILE_KW[m]) if m in PROFILE_KW else {} for m in model]
                    fx = R.py(it, S, [dict(f) for f in fixed])
                    o = it.instantiate(cls, [R.py(it, S, model), fx],
                                       {'linear_solver': Const(lin), 'profile_kwargs_list': R.py(it, S, pk)}, S, None)
                    if lin:
                        # linear amplitudes are held fixed by the class itself: read back what it fixed
                        kf = it.getattr(o, 'kwargs_fixed', S, None)
                        items = it.iterate(kf, S, None)[0]
                        fixed = [dict(it.hget(S, q).items) for q in items]
                        for k, (f, pp) in enumerate(zip(fixed, pl)):
                            if 'amp' in pp and 'amp' not in f:
                                ctx.bad('light-vector', '%s linear=%s' % (name, lin), 'linear amplitude is left in the sampled vector', WHERE[LIGHT])
                    c = '%s%s' % (name, ' linear amplitudes' if lin else '')
                    Pack(ctx, R, 'light-vector', c, WHERE[LIGHT]).run(it, S, o, comps, fixed)
                    ctx.functions |= set(it.funcs_seen)
        ctx.guard('light-vector', name, lambda: one(True))
        ctx.guard('light-vector', name, lambda: one(False))


def point_source(ctx):
    R = VecRunner(ctx.prog, PS)
    combos = [['LENSED_POSITION'], ['UNLENSED'], ['SOURCE_POSITION'], ['LENSED_POSITION', 'SOURCE_POSITION', 'UNLENSED'],
              ['UNLENSED', 'LENSED_POSITION', 'LENSED_POSITION'], ['SOURCE_POSITION', 'UNLENSED']]
    for models in combos:
        for mag in (False, True):
            for lin in (True, False):
                for pat in ((), ('ra_image',), ('dec_image',), ('ra_source',), ('dec_source', 'ra_image')):
                    it = R.interp()
                    S = State({}, {})
                    cls = R.cls(it, PS, 'PointSourceParam')
                    ctx.need(cls is not None, 'PointSourceParam')
                    nims = [4, 2, 3][:len(models)]
                    comps, fixed = [], []
                    for k, m in enumerate(models):
                        d = {}
                        if m == 'SOURCE_POSITION':
                            d['ra_source'], d['dec_source'] = R.sym('%d.ra_source' % k), R.sym('%d.dec_source' % k)
                        else:
                            d['ra_image'], d['dec_image'] = R.arr('%d.ra_image' % k, nims[k]), R.arr('%d.dec_image' % k, nims[k])
                        if mag and m != 'UNLENSED':
                            d['source_amp'] = R.sym('%d.source_amp' % k)
                        else:
                            d['point_amp'] = R.arr('%d.point_amp' % k, nims[k])
                        comps.append(d)
                        fixed.append({p: fixed_value(R, d[p], k, p) for p in pat if p in d})
                    o = it.instantiate(cls, [R.py(it, S, models), R.py(it, S, [dict(f) for f in fixed])],
                                       {'num_point_source_list': R.py(it, S, nims), 'linear_solver': Const(lin),
                                        'fixed_magnification_list': R.py(it, S, [mag] * len(models))}, S, None)
                    c = '%s fixed_magnification=%s linear=%s' % ('+'.join(models), mag, lin)
                    if lin:
                        kf = it.getattr(o, 'kwargs_fixed', S, None)
                        fixed = [dict(it.hget(S, q).items) for q in it.iterate(kf, S, None)[0]]
                        for k, (d, f) in enumerate(zip(comps, fixed)):
                            if not ({'point_amp', 'source_amp'} & set(d)) <= set(f):
                                ctx.bad('point-source-vector', c, 'linear amplitude of component %d is left in the sampled vector' % k, WHERE[PS])
                        num = it.call(it.getattr(o, 'num_param_linear', S, None), [], {}, S, None)
                        want = sum(1 if 'source_amp' in d else len(d['point_amp'].items) for d in comps)
                        if isinstance(num, Const) and num.v != want:
                            ctx.bad('point-source-vector', c, '%s linear amplitudes counted, %d exist' % (num.v, want), WHERE[PS])
                    Pack(ctx, R, 'point-source-vector', c, WHERE[PS]).run(it, S, o, comps, fixed)
                    ctx.functions |= set(it.funcs_seen)


def special(ctx):
    R = VecRunner(ctx.prog, SPECIAL)
    common = dict(mass_scaling=True, num_scale_factor=2, general_scaling_params={'theta_E': [0, 1, 2]}, point_source_offset=True, source_size=True,
                  num_images=4, num_tau0=3, source_grid_offset=True)
    configs = {
        'none': {},
        'time delay': dict(Ddt_sampling=True),
        'kinematics': dict(kinematic_sampling=True),
        'all': dict(common, Ddt_sampling=True, kinematic_sampling=True, num_z_sampling=2),
        'distance ratios': dict(common, distance_ratio_sampling=True, num_lens_planes=3),
        'offset without images': dict(point_source_offset=True, num_images=0),
    }
    for m in ('FlatLambdaCDM', 'LambdaCDM', 'FlatwCDM', 'wCDM', 'Flatw0waCDM', 'w0waCDM'):
        configs['cosmology ' + m] = dict(common, cosmology_sampling=True, cosmology_model=m)
    for cname, cfg in configs.items():
        def one():
            it = R.interp()
            S = State({}, {})
            cls = R.cls(it, SPECIAL, 'SpecialParam')
            ctx.need(cls is not None, 'SpecialParam')

            def build(fixed):
                return it.instantiate(cls, [], {k: R.py(it, S, v) for k, v in dict(cfg, kwargs_fixed=dict(fixed)).items()}, S, None)
            o = build({})
            lo = R.unpy(it, S, it.getattr(o, 'lower_limit', S, None))
            up = R.unpy(it, S, it.getattr(o, 'upper_limit', S, None))
            c = cname
            if not isinstance(lo, dict) or not isinstance(up, dict):
                ctx.undecided('special-vector', c, 'limits not static')
                return
            if list(lo) != list(up):
                ctx.bad('special-vector', c, 'lower and upper limits cover different parameters: %s' % sorted(set(lo) ^ set(up)), WHERE[SPECIAL])
            comp = {p: (R.arr('0.' + p, len(v)) if isinstance(v, list) else R.sym('0.' + p)) for p, v in lo.items()}
            for p in lo:
                a, b = lo[p], up.get(p)
                for x, y in zip(a if isinstance(a, list) else [a], b if isinstance(b, list) else [b]):
                    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and x > y:
                        ctx.bad('special-vector', c, 'lower limit of %s exceeds the upper one' % p, WHERE[SPECIAL])
                if isinstance(a, list) != isinstance(b, list) or isinstance(a, list) and len(a) != len(b):
                    ctx.bad('special-vector', c, 'limits of %s differ in length' % p, WHERE[SPECIAL])
            ps = list(comp)
            for pat in fix_patterns(ps, 'quick'):
                for bound in (False, True):
                    fixed = {p: fixed_value(R, comp[p], 0, p) for p in pat}
                    o = build(fixed)
                    Pack(ctx, R, 'special-vector', c, WHERE[SPECIAL]).run(it, S, o, [comp], [fixed], getkw={'impose_bound': Const(bound)}, single=True)
            ctx.functions |= set(it.funcs_seen)
        ctx.guard('special-vector', cname, one)


SECTIONS = [('kwargs_lens', 'lens_params'), ('kwargs_source', 'source_params'), ('kwargs_lens_light', 'lens_light_params'),
            ('kwargs_ps', 'point_source_params'), ('kwargs_special', 'special_params'), ('kwargs_extinction', 'extinction_params'),
            ('kwargs_tracer_source', 'tracer_source_params')]
MODEL = dict(lens_model_list=['SIE', 'SHEAR', 'SIS'], source_light_model_list=['SERSIC', 'GAUSSIAN'],
             lens_light_model_list=['SERSIC_ELLIPSE', 'HERNQUIST'], point_source_model_list=['LENSED_POSITION', 'UNLENSED'],
             optical_depth_model_list=['UNIFORM'], tracer_source_model_list=['GAUSSIAN'])
EXTRA = dict(num_point_source_list=[4, 2], Ddt_sampling=True, source_size=True, point_source_offset=True, kwargs_fixed_extinction=[{}])


def build_param(R, it, S, model, extra):
    cls = R.cls(it, PARAM, 'Param')
    if cls is None:
        return None
    return it.instantiate(cls, [R.py(it, S, model)], {k: R.py(it, S, v) for k, v in extra.items()}, S, None)


def call(it, S, o, m, *a, **k):
    return it.call(it.getattr(o, m, S, None), list(a), k, S, None)


def full(ctx):
    R = VecRunner(ctx.prog, PARAM)
    configs = {
        'plain': (MODEL, EXTRA),
        'log sampling': (MODEL, dict(EXTRA, log_sampling_lens=[[0, ['theta_E']], [2, ['theta_E', 'center_x']]])),
        'no linear solver': (MODEL, dict(EXTRA, linear_solver=False)),
        'fixed parameters': (MODEL, dict(EXTRA, kwargs_fixed_lens=[{'e1': R.sym('f.e1')}, {'ra_0': 0, 'dec_0': 0}, {}],
                                         kwargs_fixed_source=[{}, {'sigma': R.sym('f.sigma')}],
                                         kwargs_fixed_lens_light=[{'n_sersic': 4}, {}], kwargs_fixed_ps=[{}, {'ra_image': [1, 2]}],
                                         kwargs_fixed_special={'D_dt': R.sym('f.ddt')})),
        'kinematics, scaling': (MODEL, dict(EXTRA, kinematic_sampling=True, mass_scaling_list=[1, False, 2])),
        'no point source': ({k: v for k, v in MODEL.items() if not k.startswith('point')},
                            {k: v for k, v in EXTRA.items() if k not in ('num_point_source_list', 'point_source_offset')}),
        'optical depth count': (dict(MODEL, tau0_index_list=[0, 0]), dict(EXTRA, num_tau0=2)),
    }
    for cname, (model, extra) in configs.items():
        def one():
            it = R.interp()
            S = State({}, {})
            try:
                o = build_param(R, it, S, model, extra)
            except Bottom as b:
                ctx.bad('full-vector', cname, 'configuration is rejected: %s' % b.why, WHERE[PARAM])
                return
            ctx.need(o is not None, 'Param')
            num = R.unpy(it, S, call(it, S, o, 'num_param'))
            if unknown(num) or not isinstance(num[0], int):
                ctx.undecided('full-vector', cname, 'number of parameters not static')
                return
            n, names = num
            if len(names) != n:
                ctx.bad('full-vector', cname, '%d names for %d parameters' % (len(names), n), WHERE[PARAM])
            args = R.arr('a', n)
            out = call(it, S, o, 'args2kwargs', args)
            back = R.unpy(it, S, call(it, S, o, 'kwargs2args', **{k: v for k, v in it.hget(S, out).items.items()}))
            if not isinstance(back, list):
                ctx.undecided('full-vector', cname, 'vector not static')
                return
            if len(back) != n:
                ctx.bad('full-vector', cname, 'packing the unpacked vector gives %d entries instead of %d' % (len(back), n), WHERE[PARAM])
                return
            for j, x in enumerate(back):
                r = same('s:a[%d]' % j, x)
                # log sampling: log10(10**a) keeps its single dependence
                if r == 'bad' and isinstance(x, str) and x == 's:log10(pow(10,a[%d]))' % j:
                    r = 'ok'
                if r == 'bad':
                    ctx.bad('full-vector', cname, 'entry %d (%s) comes back as %s' % (j, names[j][4:], short(x)), WHERE[PARAM])
            # section order of the names follows the packed vector
            pos = 0
            for key, attr in SECTIONS:
                sub = it.getattr(o, attr, S, None)
                sn = R.unpy(it, S, call(it, S, sub, 'num_param'))
                if unknown(sn):
                    pos = None
                    break
                if names[pos:pos + sn[0]] != sn[1]:
                    ctx.bad('full-vector', cname, 'names at %d..%d are %s, the vector holds %s there' % (pos, pos + sn[0], names[pos:pos + sn[0]], sn[1]), WHERE[PARAM])
                pos += sn[0]
            # limits: entry j of the lower vector is the lower limit of the parameter named j
            lims = R.unpy(it, S, call(it, S, o, 'param_limits'))
            if isinstance(lims, list) and len(lims) == 2 and all(isinstance(q, list) for q in lims):
                for side, q in zip(('lower', 'upper'), lims):
                    if len(q) != n:
                        ctx.bad('full-vector', cname, '%d %s limits for %d parameters' % (len(q), side, n), WHERE[PARAM])
                for j, (a, b) in enumerate(zip(*lims)):
                    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and a > b:
                        ctx.bad('full-vector', cname, 'entry %d (%s): lower limit %s above upper limit %s' % (j, names[j][4:], a, b), WHERE[PARAM])
            # user limits are used, by side and section
            kwl = {}
            for key, attr in SECTIONS:
                sec = {'kwargs_lens': 'lens', 'kwargs_source': 'source', 'kwargs_lens_light': 'lens_light', 'kwargs_ps': 'ps',
                       'kwargs_special': 'special', 'kwargs_extinction': 'extinction', 'kwargs_tracer_source': 'tracer_source'}[key]
                v = it.hget(S, out).items.get(key)
                pv = R.unpy(it, S, v)
                for side in ('lower', 'upper'):
                    def tag(x, lb):
                        if isinstance(x, list):
                            return R.arr(lb, len(x))
                        return R.sym(lb)
                    if isinstance(pv, list) and all(isinstance(d, dict) for d in pv):
                        kwl['kwargs_%s_%s' % (side, sec)] = [{p: tag(x, '%s.%s.%d.%s' % (side, sec, k, p)) for p, x in d.items()} for k, d in enumerate(pv)]
                    elif isinstance(pv, dict):
                        kwl['kwargs_%s_%s' % (side, sec)] = {p: tag(x, '%s.%s.0.%s' % (side, sec, p)) for p, x in pv.items()}
            it2 = R.interp()
            S2 = State({}, {})
            o2 = build_param(R, it2, S2, model, dict(extra, **kwl))
            lims = R.unpy(it2, S2, call(it2, S2, o2, 'param_limits'))
            if isinstance(lims, list) and len(lims) == 2 and all(isinstance(q, list) for q in lims):
                lo, up = lims
                if len(lo) != n or len(up) != n:
                    ctx.bad('full-vector', cname, '%d/%d user limits for %d parameters' % (len(lo), len(up), n), WHERE[PARAM])
                for j, (a, b) in enumerate(zip(lo, up)):
                    if isinstance(a, str) and isinstance(b, str):
                        if 'upper.' in a or 'lower.' in b:
                            ctx.bad('full-vector', cname, 'entry %d (%s): limits are exchanged (%s, %s)' % (j, names[j][4:], a, b), WHERE[PARAM])
                        elif a.replace('lower.', '') != b.replace('upper.', ''):
                            ctx.bad('full-vector', cname, 'entry %d (%s): lower limit of %s paired with upper limit of %s' % (j, names[j][4:], a, b), WHERE[PARAM])
                        p = a.split('.')[-1].split('[')[0].rstrip(')')
                        if not names[j][4:].startswith(p):
                            ctx.bad('full-vector', cname, 'entry %d is named %s but bounded by the limit of %s' % (j, names[j][4:], a), WHERE[PARAM])
                        elif ('log10' in a) != (isinstance(back[j], str) and 'log10' in back[j]) and 'log sampling' in cname:
                            ctx.bad('full-vector', cname, 'entry %d (%s): limit and value are not both logarithmic' % (j, names[j][4:]), WHERE[PARAM])
            ctx.ok('full-vector', cname)
            ctx.functions |= set(it.funcs_seen)
        ctx.guard('full-vector', cname, one)
