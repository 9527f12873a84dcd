"""C21 linked parameters: a linked parameter is not sampled and always takes the value it is linked to."""
from ..engine import Bottom
from ..values import *
from ..vec import VecRunner, unknown
from .c02 import MODEL, EXTRA, PARAM, WHERE, build_param, call, same, short

CEN = ['center_x', 'center_y']
RULE = 'link'


def run(ctx):
    ctx.explanation = (
        'Complete configurations with each linking option are interpreted on a symbolic parameter vector: the linked keyword must be absent from the '
        'vector (names and count), the unpacked value must be the very symbol it is linked to, and all unlinked parameters keep their own entry.')
    ctx.assumptions.append('one or two representative components per linking option; linking code is generic in component index and parameter name')
    ctx.rule(RULE, 'linked parameter = parameter it is linked to, in every unpacked configuration')
    ctx.rule('not-sampled', 'a linked parameter does not occupy an entry of the sampled vector')
    ctx.rule('unlinked', 'every other parameter is its own distinct entry of the vector')
    ctx.rule('mass-scaling', 'scaled parameters depend on their own entry and exactly their own scale factor')
    ctx.rule('redshift-sampling', 'sampled redshifts replace exactly the listed entries')
    R = VecRunner(ctx.prog, PARAM)
    T = {'t': True}
    cfgs = [
        # name, extra options, [(section, comp, param) , (section, comp, param)] linked pairs (to, from)
        ('lens with lens', dict(joint_lens_with_lens=[[0, 2, CEN]]), [(('kwargs_lens', 2, p), ('kwargs_lens', 0, p)) for p in CEN]),
        ('lens with lens, reversed', dict(joint_lens_with_lens=[[2, 0, CEN]]), [(('kwargs_lens', 0, p), ('kwargs_lens', 2, p)) for p in CEN]),
        ('lens with lens, renamed', dict(joint_lens_with_lens=[[0, 1, {'ra_0': 'center_x', 'dec_0': 'center_y'}]]),
         [(('kwargs_lens', 1, 'ra_0'), ('kwargs_lens', 0, 'center_x')), (('kwargs_lens', 1, 'dec_0'), ('kwargs_lens', 0, 'center_y'))]),
        ('lens light with lens light', dict(joint_lens_light_with_lens_light=[[0, 1, CEN]]),
         [(('kwargs_lens_light', 1, p), ('kwargs_lens_light', 0, p)) for p in CEN]),
        ('source with source', dict(joint_source_with_source=[[0, 1, CEN]]), [(('kwargs_source', 1, p), ('kwargs_source', 0, p)) for p in CEN]),
        ('source with source, reversed', dict(joint_source_with_source=[[1, 0, ['center_y']]]), [(('kwargs_source', 0, 'center_y'), ('kwargs_source', 1, 'center_y'))]),
        ('lens with light', dict(joint_lens_with_light=[[0, 2, CEN]]), [(('kwargs_lens', 2, p), ('kwargs_lens_light', 0, p)) for p in CEN]),
        ('lens with light, other', dict(joint_lens_with_light=[[1, 0, CEN]]), [(('kwargs_lens', 0, p), ('kwargs_lens_light', 1, p)) for p in CEN]),
        ('lens with source light', dict(joint_lens_with_source_light=[[1, 2, CEN]]), [(('kwargs_lens', 2, p), ('kwargs_source', 1, p)) for p in CEN]),
        ('extinction with lens light', dict(joint_extinction_with_lens_light=[[0, 0, ['center_x']]], _model=dict(optical_depth_model_list=['GAUSSIAN'])),
         [(('kwargs_extinction', 0, 'center_x'), ('kwargs_lens_light', 0, 'center_x'))]),
        ('source light with tracer', dict(joint_source_light_with_tracer=[[1, 0, CEN]]), [(('kwargs_tracer_source', 0, p), ('kwargs_source', 1, p)) for p in CEN]),
        ('source with point source', dict(joint_source_with_point_source=[[0, 1]], _model=dict(point_source_model_list=['SOURCE_POSITION', 'UNLENSED'])),
         [(('kwargs_source', 1, 'center_x'), ('kwargs_ps', 0, 'ra_source')), (('kwargs_source', 1, 'center_y'), ('kwargs_ps', 0, 'dec_source'))]),
        ('chain light -> lens -> lens', dict(joint_lens_with_light=[[0, 0, CEN]], joint_lens_with_lens=[[0, 2, CEN]]),
         [(('kwargs_lens', 0, p), ('kwargs_lens_light', 0, p)) for p in CEN] + [(('kwargs_lens', 2, p), ('kwargs_lens_light', 0, p)) for p in CEN]),
        ('chain light -> light -> lens', dict(joint_lens_light_with_lens_light=[[0, 1, CEN]], joint_lens_with_light=[[1, 2, CEN]]),
         [(('kwargs_lens_light', 1, p), ('kwargs_lens_light', 0, p)) for p in CEN] + [(('kwargs_lens', 2, p), ('kwargs_lens_light', 0, p)) for p in CEN]),
        ('chain point source -> source -> source', dict(joint_source_with_point_source=[[0, 0]], joint_source_with_source=[[0, 1, CEN]],
                                                       _model=dict(point_source_model_list=['SOURCE_POSITION', 'UNLENSED'])),
         [(('kwargs_source', k, 'center_x'), ('kwargs_ps', 0, 'ra_source')) for k in (0, 1)] + [(('kwargs_source', k, 'center_y'), ('kwargs_ps', 0, 'dec_source')) for k in (0, 1)]),
        ('chain source -> source -> tracer', dict(joint_source_with_source=[[0, 1, CEN]], joint_source_light_with_tracer=[[1, 0, CEN]]),
         [(('kwargs_source', 1, p), ('kwargs_source', 0, p)) for p in CEN] + [(('kwargs_tracer_source', 0, p), ('kwargs_source', 0, p)) for p in CEN]),
    ]
    del T
    cfgs += chains()
    for name, opt, links in cfgs:
        for bij in (False, True):
            ctx.guard(RULE, name, lambda: one(ctx, R, name, dict(opt), links, bij))
    ctx.guard('mass-scaling', 'scaling', lambda: scaling(ctx, R))
    ctx.guard(RULE, 'positions', lambda: positions(ctx, R))
    ctx.guard('redshift-sampling', 'redshifts', lambda: redshifts(ctx, R))
    ctx.min_ok(RULE, 20)
    ctx.min_ok('not-sampled', 20)


SECT = {'lens': 'kwargs_lens', 'll': 'kwargs_lens_light', 'src': 'kwargs_source', 'trc': 'kwargs_tracer_source', 'ext': 'kwargs_extinction'}
# option, from, to
KINDS = [('joint_lens_with_lens', 'lens', 'lens'), ('joint_lens_light_with_lens_light', 'll', 'll'), ('joint_source_with_source', 'src', 'src'),
         ('joint_lens_with_light', 'll', 'lens'), ('joint_lens_with_source_light', 'src', 'lens'), ('joint_source_light_with_tracer', 'src', 'trc'),
         ('joint_extinction_with_lens_light', 'll', 'ext')]
# components that have centre parameters, per section
COMPS = {'lens': (0, 2), 'll': (0, 1), 'src': (0, 1), 'trc': (0,), 'ext': (0,)}


def chains():
    """every ordered pair of linking options where the target of the first is the origin of the second."""
    out = []
    for o1, f1, t1 in KINDS:
        for o2, f2, t2 in KINDS:
            if t1 != f2:
                continue
            for a in COMPS[f1]:
                for b in COMPS[t1]:
                    if (f1, a) == (t1, b):
                        continue
                    for c in COMPS[t2]:
                        if (t2, c) in ((t1, b), (f1, a)):
                            continue
                        opt = {o1: [[a, b, CEN]]}
                        if o1 == o2:
                            opt[o1] = [[a, b, CEN], [b, c, CEN]]
                        else:
                            opt[o2] = [[b, c, CEN]]
                        if 'ext' in (t1, t2):
                            opt['_model'] = dict(optical_depth_model_list=['GAUSSIAN'])
                        links = [((SECT[t1], b, p), (SECT[f1], a, p)) for p in CEN] + [((SECT[t2], c, p), (SECT[f1], a, p)) for p in CEN]
                        out.append(('chain %s[%d] -> %s[%d] -> %s[%d]' % (f1, a, t1, b, t2, c), opt, links))
    return out


def setup(R, opt):
    it = R.interp()
    S = State({}, {})
    model = dict(MODEL, **opt.pop('_model', {}))
    o = build_param(R, it, S, model, dict(EXTRA, **opt))
    num = R.unpy(it, S, call(it, S, o, 'num_param'))
    return it, S, o, num


def slots(R, it, S, out):
    d = R.unpy(it, S, out)
    return d


def one(ctx, R, name, opt, links, bij):
    try:
        it, S, o, num = setup(R, opt)
    except Bottom as b:
        ctx.bad(RULE, name, 'linking option is rejected: %s' % b.why, WHERE[PARAM])
        return
    ctx.need(o is not None, 'Param')
    if unknown(num):
        ctx.undecided(RULE, name, 'count not static')
        return
    n, names = num
    args = R.arr('a', n)
    d = R.unpy(it, S, call(it, S, o, 'args2kwargs', args, bijective=Const(bij)))
    short_sec = {'kwargs_lens': 'lens', 'kwargs_source': 'source_light', 'kwargs_lens_light': 'lens_light', 'kwargs_extinction': 'light',
                 'kwargs_tracer_source': 'light', 'kwargs_ps': 'ps'}
    linked = set()
    for (ts, tk, tp), (fs, fk, fp) in links:
        c = '%s: %s[%d].%s' % (name, ts, tk, tp)
        linked.add((ts, tk, tp))
        if not isinstance(d, dict) or ts not in d:
            ctx.undecided(RULE, c, 'not static')
            continue
        try:
            got, want = d[ts][tk][tp], d[fs][fk][fp]
        except (KeyError, TypeError, IndexError):
            ctx.bad(RULE, c, 'linked parameter is missing from the unpacked arguments', WHERE[PARAM])
            continue
        st = same(want, got)
        if isinstance(got, tuple) and isinstance(got[1], tuple) and isinstance(want, str) and got[1] == (want[2:],):
            st = 'ok'
        if st == 'ok':
            ctx.ok(RULE, c)
        elif st == 'bad':
            ctx.bad(RULE, c, 'takes the value %s instead of %s' % (short(got), short(want)), WHERE[PARAM])
        else:
            ctx.undecided(RULE, c, 'value not tracked')
        entry = 'str:%s_%s%d' % (tp, short_sec[ts], tk)
        ambiguous = ts in ('kwargs_extinction', 'kwargs_tracer_source')
        if not ambiguous:
            if entry in names:
                ctx.bad('not-sampled', c, 'linked parameter still occupies an entry (%s) of the sampled vector' % entry[4:], WHERE[PARAM])
            else:
                ctx.ok('not-sampled', c)
    # all other entries: each vector entry appears in the unpacked arguments, in an unlinked parameter
    seen = {}
    lost = False
    for sec, v in d.items():
        for k, comp in enumerate(v if isinstance(v, list) else [v]):
            if not isinstance(comp, dict):
                return
            for p, x in comp.items():
                if (sec, k, p) in linked:
                    continue
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, str) and y.startswith('s:'):
                        seen.setdefault(y[2:], []).append((sec, k, p))
                    elif isinstance(y, tuple) and isinstance(y[1], tuple) and len(y[1]) == 1:
                        seen.setdefault(y[1][0], []).append((sec, k, p))
                    elif isinstance(y, tuple):
                        lost = lost or not isinstance(y[1], tuple)
                        for q in y[1] if isinstance(y[1], tuple) else ():
                            seen.setdefault(q, []).append((sec, k, p, 'mixed'))
    for j in range(n):
        lb = 'a[%d]' % j
        c = '%s: entry %s' % (name, names[j][4:])
        u = [x for x in seen.get(lb, []) if len(x) == 3]
        if not seen.get(lb):
            (ctx.undecided if lost else ctx.bad)('unlinked', c, 'vector entry %d is not used by any parameter' % j, WHERE[PARAM])
        elif len(set(u)) > 1:
            ctx.bad('unlinked', c, 'vector entry %d feeds unrelated parameters %s' % (j, sorted(set(u))), WHERE[PARAM])
        else:
            ctx.ok('unlinked', c)


def entry_of(d, sec, k, p):
    x = d[sec][k][p] if isinstance(d[sec], list) else d[sec][p]
    return x


def deps_of(x):
    if isinstance(x, list):
        r = set()
        for y in x:
            r |= deps_of(y) or set()
        return r
    if isinstance(x, str) and x.startswith('s:'):
        import re
        return set(re.findall(r'a\[\d+\]', x))
    if isinstance(x, tuple) and isinstance(x[1], tuple):
        return set(x[1])
    return None


def scaling(ctx, R):
    base_it, base_S, base_o, base_num = setup(R, {})
    for label, opt, scaled in (
            ('two groups', dict(mass_scaling_list=[1, False, 2]), {0: 0, 2: 1}),
            ('swapped groups', dict(mass_scaling_list=[2, False, 1]), {0: 1, 2: 0}),
            ('one group', dict(mass_scaling_list=[False, False, 1]), {2: 0}),
            ('general', dict(general_scaling={'theta_E': [1, False, 2]}), {0: 0, 2: 1})):
        it, S, o, num = setup(R, opt)
        n, names = num
        if unknown(num):
            ctx.undecided('mass-scaling', label, 'count not static')
            continue
        d = R.unpy(it, S, call(it, S, o, 'args2kwargs', R.arr('a', n)))
        key = [p for p in d['kwargs_special'] if p.endswith('scale_factor')]
        if not key:
            ctx.bad('mass-scaling', label, 'no scale factor is sampled', WHERE[PARAM])
            continue
        fac = d['kwargs_special'][key[0]]
        pw = d['kwargs_special'].get(key[0].replace('factor', 'pow'))
        for k, comp in enumerate(d['kwargs_lens']):
            for p, x in comp.items():
                c = '%s lens[%d].%s' % (label, k, p)
                own = {'a[%d]' % j for j, nm in enumerate(names) if nm == 'str:%s_lens%d' % (p, k)}
                want = set(own)
                if p == 'theta_E' and k in scaled:
                    want |= deps_of(fac[scaled[k]])
                    if pw is not None:
                        want |= deps_of(pw[scaled[k]])
                got = deps_of(x)
                if got is None:
                    ctx.undecided('mass-scaling', c, 'value not tracked')
                elif got == want:
                    ctx.ok('mass-scaling', c)
                elif got > want and isinstance(x, tuple) and len(got) > len(want) + 3:
                    ctx.undecided('mass-scaling', c, 'imprecise: may depend on %s' % sorted(got))
                else:
                    ctx.bad('mass-scaling', c, 'depends on %s, expected %s' % (sorted(got), sorted(want)), WHERE[PARAM])


def positions(ctx, R):
    """links that go through a computed position."""
    it, S, o, num = setup(R, dict(joint_lens_light_with_point_source=[[1, 0]]))
    n, names = num
    d = R.unpy(it, S, call(it, S, o, 'args2kwargs', R.arr('a', n)))
    for p, q in (('center_x', 'ra_image'), ('center_y', 'dec_image')):
        c = 'lens light with point source: %s' % p
        got, want = deps_of(d['kwargs_lens_light'][0][p]), deps_of(d['kwargs_ps'][1][q])
        if got is None:
            ctx.undecided(RULE, c, 'not tracked')
        elif got == want:
            ctx.ok(RULE, c)
        elif got > want and len(got) > len(want) + 3:
            ctx.undecided(RULE, c, 'imprecise')
        else:
            ctx.bad(RULE, c, 'depends on %s instead of the image positions %s' % (sorted(got), sorted(want)), WHERE[PARAM])
        e = 'str:%s_lens_light0' % p
        if e in names:
            ctx.bad('not-sampled', c, 'linked centre is still sampled', WHERE[PARAM])
        else:
            ctx.ok('not-sampled', c)
    it, S, o, num = setup(R, dict(joint_source_with_point_source=[[0, 1]]))
    n, names = num
    d = R.unpy(it, S, call(it, S, o, 'args2kwargs', R.arr('a', n)))
    ps = deps_of(d['kwargs_ps'][0]['ra_image']) | deps_of(d['kwargs_ps'][0]['dec_image'])
    lens = set()
    for comp in d['kwargs_lens']:
        for x in comp.values():
            lens |= deps_of(x) or set()
    for p in ('center_x', 'center_y'):
        c = 'source with lensed point source: %s' % p
        got = deps_of(d['kwargs_source'][1][p])
        if got is None:
            ctx.undecided(RULE, c, 'not tracked')
        elif not (got & ps) or not (got & lens):
            ctx.bad(RULE, c, 'does not depend on both the image positions and the lens model: %s' % sorted(got), WHERE[PARAM])
        elif got - ps - lens:
            ctx.undecided(RULE, c, 'may depend on unrelated parameters %s' % sorted(got - ps - lens))
        else:
            ctx.ok(RULE, c)
        e = 'str:%s_source_light1' % p
        if e in names:
            ctx.bad('not-sampled', c, 'linked centre is still sampled', WHERE[PARAM])
        else:
            ctx.ok('not-sampled', c)
    # image-plane parametrisation of the source centre
    it, S, o, num = setup(R, dict(image_plane_source_list=[True, False]))
    n, names = num
    for bij in (False, True):
        d = R.unpy(it, S, call(it, S, o, 'args2kwargs', R.arr('a', n), bijective=Const(bij)))
        lens = set()
        for comp in d['kwargs_lens']:
            for x in comp.values():
                lens |= deps_of(x) or set()
        for k in (0, 1):
            for p in ('center_x', 'center_y'):
                c = 'image-plane source centre [%d].%s%s' % (k, p, ' (sampling view)' if bij else '')
                got = deps_of(d['kwargs_source'][k][p])
                own = {'a[%d]' % j for j, nm in enumerate(names) if nm == 'str:%s_source_light%d' % (p, k)}
                if got is None:
                    ctx.undecided(RULE, c, 'not tracked')
                elif (k == 1 or bij) and got > own and got - own - lens:
                    ctx.undecided(RULE, c, 'imprecise')
                elif k == 1 or bij:
                    (ctx.ok if got == own else ctx.bad)(RULE, c, '' if got == own else 'is changed: depends on %s, expected %s' % (sorted(got), sorted(own)), WHERE[PARAM])
                elif own <= got and got & lens:
                    ctx.ok(RULE, c)
                else:
                    ctx.bad(RULE, c, 'is not mapped through the lens: depends on %s' % sorted(got), WHERE[PARAM])


def redshifts(ctx, R):
    it = R.interp()
    S = State({}, {})
    model = dict(MODEL, lens_redshift_list=[0.5, 0.5, 0.7], source_redshift_list=[1.5, 2.0], multi_plane=True, z_source=2.0)
    o = build_param(R, it, S, model, dict(EXTRA, lens_redshift_sampling_indexes=[0, -1, 1], source_redshift_sampling_indexes=[-1, 0]))
    z = [R.sym('z0'), R.sym('z1')]
    r = call(it, S, o, 'update_kwargs_model', it.new_dict(S, {'z_sampling': Tup(z, True)}))
    v = R.unpy(it, S, r)
    if not isinstance(v, list) or not isinstance(v[0], dict):
        ctx.undecided('redshift-sampling', 'redshift lists', 'not static')
        return
    for key, want in (('lens_redshift_list', ['s:z0', 0.5, 's:z1']), ('source_redshift_list', [1.5, 's:z0'])):
        got = v[0].get(key)
        if got == want:
            ctx.ok('redshift-sampling', key)
        elif unknown(got) or got is None:
            ctx.undecided('redshift-sampling', key, 'not tracked')
        else:
            ctx.bad('redshift-sampling', key, 'becomes %s, expected %s' % (got, want), WHERE[PARAM])
