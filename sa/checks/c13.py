"""C13 point sources: positions, amplitudes, linear response and caches describe the same images."""
from ..values import *
from ..mlrel import decide
from .c11 import same

LM = 'lenstronomy.LensModel.lens_model:LensModel'
PO = 'lenstronomy.PointSource.point_source:PointSource'

KINDS = ('UNLENSED', 'LENSED_POSITION', 'SOURCE_POSITION')


class Sky:
    """lens model (single plane with a rescalable source, or multi plane) and point sources; the lens equation solver is an unknown function of source position and lens."""

    def __init__(self, H, kinds, n=(2, 1, 2), fixed=None, z=None, frames=None, flux=None, mp=False, solver=True, settings=None, signs=False, skew=False, add=None, full=False, **kw):
        H.M.run.generic = True
        self.add, self.full = add, full
        self.H, self.kinds, self.mp, self.skew = H, kinds, mp, skew
        self.n = list(n)[:len(kinds)]
        self.fixed, self.z, self.flux = fixed, z, flux
        self.cosmo = H.cosmology()
        self.zs = 2.
        self.frames = frames
        q = lambda *n, **v: H.dict(**{k: H.num(k + t) if not signs else Const(v.get(k, 0)) for k, t in n})
        self.kl = H.list([q(('gamma1', ''), ('gamma2', ''), gamma1=2), q(*[('g%d' % i, '') for i in (1, 2, 3, 4)]), q(('gamma1', 'b'), ('gamma2', 'b')) if not skew else q(*[(n, '') for n in ('f_xx', 'f_yy', 'f_xy', 'f_yx')])])
        self.settings = dict(search_window=H.num('window', positive=True), magnification_limit=H.num('limit', positive=True)) if settings else {}
        self.lens = self.fresh()
        a = dict(kw)
        if settings:
            a.update(magnification_limit=self.settings['magnification_limit'], kwargs_lens_eqn_solver=H.dict(search_window=self.settings['search_window']))
        if fixed:
            a['fixed_magnification_list'] = H.list(fixed)
        if add:
            a['additional_images_list'] = H.list(add)
        if z:
            a['redshift_list'] = H.list(z)
        if flux:
            a['flux_from_point_source_list'] = H.list(flux)
        if frames:
            a['index_lens_model_list'] = H.list([H.list(q) for q in frames[0]])
            a['point_source_frame_list'] = H.list([H.list(q) for q in frames[1]])
        self.P = H.new(PO, H.list(list(kinds)), lens_model=self.lens, **a)
        if solver:
            self.patch(self.P)
        self.v = []
        for i, k in enumerate(kinds):
            d = {'ra_source': H.num('bx%d' % i), 'dec_source': H.num('by%d' % i)} if k == 'SOURCE_POSITION' else \
                {'ra_image': [H.num('x%d.%d' % (i, j)) for j in range(self.n[i])], 'dec_image': [H.num('y%d.%d' % (i, j)) for j in range(self.n[i])]}
            if fixed and fixed[i]:
                d['source_amp'] = H.num('sa%d' % i)
            else:
                d['point_amp'] = [H.num('a%d.%d' % (i, j)) for j in range(self.n[i] + (full and self.added(i)))]
            self.v.append(d)

    def fresh(self, z=None):
        H = self.H
        names = H.list(['SHEAR', 'FLEXION', 'HESSIAN' if self.skew else 'SHEAR'])
        if self.mp:
            return H.new(LM, names, multi_plane=True, lens_redshift_list=H.list([.5, .7, .5]), z_source=z or self.zs, z_source_convention=self.zs, cosmo=self.cosmo)
        return H.new(LM, names, z_lens=.5, z_source=z or self.zs, z_source_convention=self.zs, cosmo=self.cosmo)

    def patch(self, P):
        """positions found by the solver: unknown functions of the source position and of the deflection field the solver is given."""
        H = self.H
        for i, m in enumerate(H.items(H.attr(P, '_point_source_list'))):
            if self.kinds[i] == 'UNLENSED':
                continue
            n = self.n[i] + (self.kinds[i] == 'LENSED_POSITION')

            def solve(args, kw, n=n, model=H.attr(m, '_model')):
                lens = H.attr(model, '_lens_model')
                ax, ay = H.items(H.m(lens, 'alpha', H.num('probe.x'), H.num('probe.y'), args[2] if len(args) > 2 else kw['kwargs_lens']))
                opts = self.options(kw)
                f = lambda c: H.arr(*[H.fn('%s%d' % (c, j), args[0], args[1], ax, ay, *opts) for j in range(n)])
                return Tup([f('X'), f('Y')])

            def change(args, kw, model=H.attr(m, '_model')):
                z = args[0] if args else kw.get('z_source', Const(None))
                return H.m(H.attr(model, '_lens_model'), 'change_source_redshift', z)
            H.it.setattr(H.attr(m, '_model'), '_solver', H.stub({'image_position_from_source': H.native(solve), 'change_source_redshift': H.native(change)}, 'Solver'), H.S, None)

    @staticmethod
    def options(kw):
        return [v for k in ('search_window', 'magnification_limit') for v in [kw.get(k)] if v is not None and not (isinstance(v, Const) and v.v is None)]

    def kw(self):
        return self.H.list([self.H.dict(**d) for d in self.v])

    def zof(self, i):
        return self.z[i] if self.z and self.z[i] else None

    def added(self, i):
        return bool(self.add and self.add[i] and self.kinds[i] == 'LENSED_POSITION')

    def count(self, i):
        return self.n[i] + self.added(i)

    def behind(self, i):
        """mean position of the given images in the source plane."""
        H, d = self.H, self.v[i]
        L = self.fresh(self.zof(i))
        b = [H.items(H.m(L, 'ray_shooting', x, y, self.kl, **self.frame(i, j))) for j, (x, y) in enumerate(zip(d['ra_image'], d['dec_image']))]
        return [H.op('/', total(H, [p[c] for p in b]), Const(float(len(b)))) for c in (0, 1)]

    def positions(self, i, wide=None, more=False):
        """image positions of model i by definition."""
        H = self.H
        d = self.v[i]
        if self.kinds[i] == 'UNLENSED' or (self.kinds[i] == 'LENSED_POSITION' and not (more or self.added(i))):
            return [H.flat(H.lift(d['ra_image'])), H.flat(H.lift(d['dec_image']))]
        bx, by = self.behind(i) if self.kinds[i] == 'LENSED_POSITION' else (d['ra_source'], d['dec_source'])
        ax, ay = H.items(H.m(self.fresh(self.zof(i)), 'alpha', H.num('probe.x'), H.num('probe.y'), self.kl))
        opts = dict(self.settings)
        if wide is not None:
            opts['search_window'] = H.mul(opts['search_window'], wide)
        return [[H.fn('%s%d' % (c, j), bx, by, ax, ay, *self.options(opts)) for j in range(self.n[i] + (self.kinds[i] == 'LENSED_POSITION'))] for c in 'XY']

    def frame(self, i, j):
        if self.frames and self.kinds[i] == 'LENSED_POSITION':
            return {'k': self.H.list(self.frames[0][self.frames[1][i][j]])}
        return {}

    def mags(self, i, given=False):
        H, d = self.H, self.v[i]
        x, y = (d['ra_image'], d['dec_image']) if given and 'ra_image' in d else self.positions(i)
        L = self.fresh(self.zof(i))
        return [H.np('abs', H.m(L, 'magnification', a, b, self.kl, **self.frame(i, j))) for j, (a, b) in enumerate(zip(x, y))]

    def amps(self, i):
        H, d = self.H, self.v[i]
        if self.fixed and self.fixed[i]:
            if self.kinds[i] == 'UNLENSED':
                return H.flat(H.lift(d['point_amp']))
            a = [H.mul(d['source_amp'], m) for m in self.mags(i)]
        else:
            a = H.flat(H.lift(d['point_amp'])) + [Const(0)] * (self.added(i) and not self.full)
        if 'mag_pert' in d:
            a = [H.mul(x, p) for x, p in zip(a, d['mag_pert'])]
        return a

    def on(self, i):
        return not self.flux or self.flux[i]


def definition(kinds, before=None, **kw):
    """positions and amplitudes of all images, whatever was evaluated before."""
    def rel(H):
        C = Sky(H, kinds, **kw)
        out = []
        if before:
            for b in before:
                if b == 'source':
                    H.m(C.P, 'source_position', C.kw(), C.kl)
                elif b == 'response':
                    H.m(C.P, 'linear_response_set', C.kw(), C.kl)
                else:
                    H.m(C.P, 'point_source_list', C.kw(), C.kl, k=b)
        X, Y = [H.items(v) for v in H.items(H.m(C.P, 'image_position', C.kw(), C.kl))]
        A = H.items(H.m(C.P, 'image_amplitude', C.kw(), C.kl))
        out.append((Const(len(X)), Const(len(kinds))))
        for i in range(len(kinds)):
            x, y = C.positions(i)
            out += same(H, X[i], x) + same(H, Y[i], y) + same(H, A[i], C.amps(i) if C.on(i) else [Const(0)] * C.count(i))
            one = H.items(H.m(C.P, 'image_amplitude', C.kw(), C.kl, k=i))
            out += [(Const(len(one)), Const(1))] + same(H, one[0], C.amps(i) if C.on(i) else [Const(0)] * C.count(i))
        x, y, a = [H.flat(v) for v in H.items(H.m(C.P, 'point_source_list', C.kw(), C.kl))]
        want = [[], [], []]
        for i in range(len(kinds)):
            if C.on(i):
                full = C.amps(i)
                for w, v in zip(want, C.positions(i) + [full]):
                    w += [q for q, m in zip(v, full) if not (isinstance(m, Const) and m.v == 0)]
        for g, w in zip((x, y, a), want):
            out.append((Const(len(g)), Const(len(w))))
            out += list(zip(g, w))
        return out
    return rel


def sources(kinds, **kw):
    """source positions are where the images are traced to, source amplitudes the demagnified ones."""
    def rel(H):
        C = Sky(H, kinds, **kw)
        X, Y = [H.items(v) for v in H.items(H.m(C.P, 'source_position', C.kw(), C.kl))]
        S = H.items(H.m(C.P, 'source_amplitude', C.kw(), C.kl))
        out = []
        mean = lambda v: H.op('/', total(H, v), len(v))
        for i, k in enumerate(kinds):
            d = C.v[i]
            if k == 'SOURCE_POSITION':
                out += [(X[i], d['ra_source']), (Y[i], d['dec_source'])]
            elif k == 'UNLENSED':
                x, y = C.positions(i)
                out += same(H, X[i], x) + same(H, Y[i], y)
            else:
                b = C.behind(i)
                out += [(X[i], b[0]), (Y[i], b[1])]
            if not C.on(i):
                out += [(v, Const(0)) for v in H.flat(S[i])]
            elif k == 'UNLENSED':
                out += same(H, S[i], C.amps(i))
            elif C.fixed and C.fixed[i]:
                out.append((S[i], d['source_amp']))
            else:
                out.append((S[i], mean([H.op('/', a, m) for a, m in zip(H.flat(H.lift(d['point_amp'])), C.mags(i, given=True))])))
        return out
    return rel


def total(H, v):
    t = Const(0)
    for x in v:
        t = H.op('+', t, x)
    return t


def linear(kinds, with_amp=False, pert=False, **kw):
    """linear response times linear parameters is the list of point sources; counting, reading and writing use the same order."""
    def rel(H):
        C = Sky(H, kinds, **kw)
        if pert:
            for i, k in enumerate(kinds):
                if k == 'SOURCE_POSITION':
                    C.v[i]['mag_pert'] = [H.num('pert%d' % j) for j in range(C.n[i])]
        K = C.kw()
        x, y, a, n = H.items(H.m(C.P, 'linear_response_set', K, C.kl, with_amp=with_amp))
        x, y, a = H.items(x), H.items(y), H.items(a)
        p = H.items(H.m(C.P, 'linear_param_from_kwargs', K))
        free = [v for i, d in enumerate(C.v) if C.on(i) for v in ([d['source_amp']] if 'source_amp' in d else d['point_amp'])]
        if not (len(p) == len(x) == len(y) == len(a) == len(free)):
            return [(Const(len(v)), Const(len(free))) for v in (p, x, y, a)]
        out = list(zip(p, free)) + [(n, Const(len(p))), (H.m(C.P, 'num_basis', K, C.kl), Const(len(p))), (Const(len(x)), Const(len(p))), (Const(len(a)), Const(len(p)))]
        got = [[], [], []]
        for i in range(len(p)):
            xi, yi, ai = H.flat(x[i]), H.flat(y[i]), H.flat(a[i])
            out += [(Const(len(yi)), Const(len(xi))), (Const(len(ai)), Const(len(xi)))]
            got[0] += xi
            got[1] += yi
            got[2] += ai if with_amp else [H.mul(v, p[i]) for v in ai]
        want = [[], [], []]
        for i in range(len(kinds)):
            if C.on(i):
                for w, v in zip(want, C.positions(i) + [C.amps(i)]):
                    w += v
        for g, w in zip(got, want):
            out.append((Const(len(g)), Const(len(w))))
            out += list(zip(g, w))
        new = [H.num('q%d' % i) for i in range(len(p))]
        _, e = H.items(H.m(C.P, 'update_linear', H.arr(*[H.num('unused')] + new), 1, K, C.kl))
        out.append((e, Const(len(p) + 1)))
        return out + same(H, H.list(H.items(H.m(C.P, 'linear_param_from_kwargs', K))), new)
    return rel


def wide(kinds, **kw):
    """a wider search only widens the search window, for that call."""
    def rel(H):
        C = Sky(H, kinds, settings=True, **kw)
        f = H.num('factor', positive=True)
        out = []
        for w in (f, None):
            X, Y = [H.items(v) for v in H.items(H.m(C.P, 'image_position', C.kw(), C.kl, **({} if w is None else {'width_search_factor': w})))]
            for i in range(len(kinds)):
                x, y = C.positions(i, w)
                out += same(H, X[i], x) + same(H, Y[i], y)
        return out
    return rel


def settled(kinds, **kw):
    """amplitudes written with set_amplitudes are the ones read."""
    def rel(H):
        C = Sky(H, kinds, **kw)
        K = C.kw()
        new = [[H.num('w%d.%d' % (i, j)) for j in range(C.n[i])] if not (C.fixed and C.fixed[i]) or kinds[i] == 'UNLENSED' else H.num('w%d' % i) for i in range(len(kinds))]
        old = [dict(d) for d in C.v]
        R = H.items(H.m(C.P, 'set_amplitudes', H.list([H.lift(v) for v in new]), K))
        out = []
        for i in range(len(kinds)):
            key = 'source_amp' if C.fixed and C.fixed[i] and kinds[i] != 'UNLENSED' else 'point_amp'
            want = new[i] if C.on(i) else old[i][key]
            out += same(H, H.m(R[i], 'get', key), H.flat(H.lift(want)))
            out += same(H, H.m(H.items(K)[i], 'get', key), H.flat(H.lift(old[i][key])))
        return out
    return rel


def cached(kinds, what, **kw):
    """saved positions are used until they are deleted or the lens model is exchanged."""
    def rel(H):
        C = Sky(H, kinds, save_cache=True, **kw)
        K = C.kw()
        first = [H.items(v) for v in H.items(H.m(C.P, 'image_position', K, C.kl))]
        H.m(C.P, 'image_position', K, C.kl, additional_images=True)
        src = [H.items(v) for v in H.items(H.m(C.P, 'source_position', K, C.kl))]
        out = []
        again = [H.items(v) for v in H.items(H.m(C.P, 'image_position', K, C.kl))]
        for u, v in zip(first, again):
            for a, b in zip(u, v):
                out += same(H, a, H.flat(b))
        if what == 'delete':
            for d in C.v:
                for k in d:
                    if k != 'source_amp' and k != 'point_amp':
                        d[k] = [H.num('new.%s%d' % (k, j)) for j in range(len(d[k]))] if isinstance(d[k], list) else H.num('new.' + k)
            H.m(C.P, 'delete_lens_model_cache')
        elif what == 'lens':
            C.mp = not C.mp
            H.m(C.P, 'update_lens_model', C.fresh())
            C.patch(C.P)
        elif what == 'off':
            H.m(C.P, 'set_save_cache', False)
            for d in C.v:
                for k in d:
                    if k != 'source_amp' and k != 'point_amp':
                        d[k] = [H.num('new.%s%d' % (k, j)) for j in range(len(d[k]))] if isinstance(d[k], list) else H.num('new.' + k)
        X, Y = [H.items(v) for v in H.items(H.m(C.P, 'image_position', C.kw(), C.kl))]
        A = H.items(H.m(C.P, 'image_amplitude', C.kw(), C.kl))
        U, V = [H.items(v) for v in H.items(H.m(C.P, 'image_position', C.kw(), C.kl, additional_images=True))]
        for i in range(len(kinds)):
            x, y = C.positions(i)
            out += same(H, X[i], x) + same(H, Y[i], y) + same(H, A[i], C.amps(i))
            x, y = C.positions(i, more=True)
            out += same(H, U[i], x) + same(H, V[i], y)
        return out
    return rel


def kept(kinds, call, **kw):
    """evaluating point sources leaves the lens model as it was."""
    def rel(H):
        C = Sky(H, kinds, **kw)
        {'positions': lambda: H.m(C.P, 'image_position', C.kw(), C.kl), 'sources': lambda: H.m(C.P, 'source_position', C.kw(), C.kl), 'amplitudes': lambda: H.m(C.P, 'image_amplitude', C.kw(), C.kl),
         'list': lambda: H.m(C.P, 'point_source_list', C.kw(), C.kl), 'source amplitudes': lambda: H.m(C.P, 'source_amplitude', C.kw(), C.kl), 'response': lambda: H.m(C.P, 'linear_response_set', C.kw(), C.kl)}[call]()
        x, y = H.num('u'), H.num('v')
        a, b = H.items(H.m(C.lens, 'alpha', x, y, C.kl)), H.items(H.m(C.fresh(), 'alpha', x, y, C.kl))
        return list(zip(a, b))
    return rel


MIXES = [('UNLENSED',), ('LENSED_POSITION',), ('SOURCE_POSITION',), KINDS, ('SOURCE_POSITION', 'UNLENSED', 'LENSED_POSITION')]


def run(ctx):
    ctx.explanation = (
        'Point source classes are evaluated in the value-numbering domain with unknown positions, amplitudes and lens parameters and an unknown lens equation solver (its solutions are functions of the source '
        'position and of the deflection field it is given). Every position, amplitude and linear parameter must carry the value number its definition gives.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('the lens equation solver is a function of its arguments and of the lens model (its correctness is not decided, see C41)')
    ctx.rule('definition', 'positions and amplitudes of all images follow their definition, whatever was evaluated before')
    ctx.rule('source', 'source positions and amplitudes are those traced back from the images')
    ctx.rule('linear', 'linear response times linear parameters is the list of point sources')
    ctx.rule('write', 'amplitudes written are the amplitudes read')
    ctx.rule('cache', 'saved positions equal fresh ones until deleted')
    ctx.rule('lens', 'evaluating point sources leaves the lens model as it was')
    R = []
    Z = {1: (1.,), 3: (1., 1.5, 3.)}
    for kinds in MIXES:
        n = len(kinds)
        name = '+'.join(kinds)
        var = [('', {}), (' fixed magnification', dict(fixed=[k != 'UNLENSED' for k in kinds])), (' redshifts', dict(z=list(Z[n]), fixed=[k != 'UNLENSED' for k in kinds])),
               (' solver settings', dict(settings=True, fixed=[k != 'UNLENSED' for k in kinds])), (' flux of some', dict(flux=[i % 2 == 0 for i in range(n)])), (' flux of others', dict(flux=[n > 1 and i == 1 for i in range(n)], fixed=[k == 'SOURCE_POSITION' for k in kinds])), (' multi-plane', dict(mp=True, fixed=[k != 'UNLENSED' for k in kinds])),
               (' multi-plane redshifts', dict(mp=True, z=[1., None, 1.5][:n], fixed=[k != 'UNLENSED' for k in kinds]))]
        for lab, kw in var:
            R.append(('definition', name + lab, definition(kinds, **kw)))
            R.append(('source', name + lab, sources(kinds, **kw)))
            R.append(('source', name + lab + ' own amplitudes', sources(kinds, **dict(kw, fixed=None))))
            R.append(('linear', name + lab, linear(kinds, **kw)))
            R.append(('linear', name + lab + ' with amplitudes', linear(kinds, with_amp=True, **kw)))
            R.append(('write', name + lab, settled(kinds, **kw)))
            if kw.get('z'):
                for call in ('positions', 'sources', 'amplitudes', 'list', 'source amplitudes', 'response'):
                    R.append(('lens', name + lab + ' ' + call, kept(kinds, call, **dict(kw, fixed=kw['fixed'] if call != 'source amplitudes' else None))))
                for b in [['source'], ['response'], [0], [n - 1, 0]]:
                    R.append(('definition', '%s%s after %s' % (name, lab, b), definition(kinds, before=b, **kw)))
            if not kw.get('flux'):
                for w in ('delete', 'lens', 'off'):
                    R.append(('cache', '%s%s %s' % (name, lab, w), cached(kinds, w, **kw)))
        R.append(('definition', name + ' wider search', wide(kinds)))
        R.append(('source', name + ' negative parity', sources(kinds, signs=True)))
        R.append(('definition', name + ' negative parity', definition(kinds, signs=True, fixed=[k != 'UNLENSED' for k in kinds])))
        if 'SOURCE_POSITION' in kinds:
            R.append(('linear', name + ' own amplitudes perturbed', linear(kinds, pert=True)))
            R.append(('linear', name + ' perturbed magnification', linear(kinds, pert=True, fixed=[k != 'UNLENSED' for k in kinds])))
            R.append(('linear', name + ' perturbed magnification with amplitudes', linear(kinds, pert=True, with_amp=True, fixed=[k != 'UNLENSED' for k in kinds])))
    fr = dict(frames=([[0, 1], [0, 2]], [[0, 1], [1]]), n=(2, 1))
    for lab, kw in (('', {}), (' fixed magnification', dict(fixed=[True, True])), (' redshifts', dict(fixed=[True, True], z=[1., 3.]))):
        kinds = ('LENSED_POSITION', 'LENSED_POSITION')
        R.append(('definition', 'frames' + lab, definition(kinds, **fr, **kw)))
        R.append(('source', 'frames' + lab, sources(kinds, **fr, **kw)))
        R.append(('linear', 'frames' + lab, linear(kinds, **fr, **kw)))
        R.append(('linear', 'frames with amplitudes' + lab, linear(kinds, with_amp=True, **fr, **kw)))
    for kinds in (('LENSED_POSITION',), KINDS, ('LENSED_POSITION', 'LENSED_POSITION')):
        n, name = len(kinds), '+'.join(kinds)
        fixed = [k != 'UNLENSED' for k in kinds]
        for lab, kw in (('', {}), (' fixed magnification', dict(fixed=fixed)), (' redshifts', dict(z=[1., 1.5, 3.][:n])), (' fixed magnification redshifts', dict(z=[1., 1.5, 3.][:n], fixed=fixed)), (' solver settings', dict(settings=True, fixed=fixed))):
            kw = dict(kw, add=[True, False, True][:n] if n < 3 else [True] * 3)
            R.append(('definition', name + ' additional images' + lab, definition(kinds, **kw)))
            R.append(('source', name + ' additional images' + lab, sources(kinds, **kw)))
            R.append(('linear', name + ' additional images' + lab, linear(kinds, full=True, **kw)))
            R.append(('linear', name + ' additional images with amplitudes' + lab, linear(kinds, full=True, with_amp=True, **kw)))
            for w in ('delete', 'lens', 'off'):
                R.append(('cache', '%s additional images%s %s' % (name, lab, w), cached(kinds, w, **kw)))
    decide(ctx, R, nd=True, n=3)
    for r, k in (('definition', 10), ('source', 10), ('linear', 10), ('write', 5), ('cache', 10), ('lens', 4)):
        ctx.min_ok(r, k)
