"""C45 enclosed masses, densities and deflections of a radial profile belong together."""
import ast
import os
from ..engine import Bottom, Budget
from ..values import *
from .. import mlval, mlrun
from ..mlrun import MLRun, profile_eval, profile_param
from ..mlpool import warm, pmap, Verdict, signature, T, F, I, U, NA, W, Z, SD
from ..lensprof import LensRunner
from .c23 import compare, value

ZERO = {'center_x', 'center_y', 'e1', 'e2', 'ra_0', 'dec_0'}
# from the amplitude a lens model is parameterised with to the amplitude of its density, and back
CONV = (('alpha2rho0', 'rho02alpha'), ('theta2rho', 'rho2theta'), ('sigma2rho', 'rho2sigma'), ('_sigma2rho0', '_rho02sigma'), ('sigma2rho0', 'rho02sigma'))
ELLIPTICAL = {'e1', 'e2', 'q', 'phi'}     # the radial quantities of these describe the spherical counterpart
SKIP = {'SYNTHESIS', 'TABULATED_DEFLECTIONS', 'LOS', 'LOS_MINIMAL', 'LOS_FLEXION', 'LOS_FLEXION_MINIMAL'}
RELS = {'mass_3d': 'd mass_3d/dr = 4 pi r^2 density', 'mass_3d_lens': 'd mass_3d_lens/dr = 4 pi r^2 density_lens', 'mass_2d': 'd mass_2d/dR = 2 pi R density_2d',
        'mass_2d_lens': 'alpha = mass_2d_lens / (pi R)', 'deflection': 'alpha = mass_2d / (pi R)', 'convergence': 'kappa = density_2d', 'amplitude': 'amplitude conversions are inverse'}


class Profile:
    """the radial methods of one profile, called with consistent values of equally named parameters."""

    def __init__(self, M, name):
        self.M = M
        self.E = profile_eval(M, name)
        self.vals = {}

    def has(self, *names):
        return all(self.fn(n) is not None for n in names)

    def fn(self, name):
        for k in self.E.cls.mro():
            f = k.attrs.get(name)
            if f is not None:
                return None if k.name == 'LensProfileBase' or not isinstance(f, FuncV) else f
        return None

    def params(self, name):
        a = self.fn(name).node.args
        p = [x.arg for x in a.posonlyargs + a.args]
        return p[1:] if self.fn(name).kind == 'func' else p

    def par(self, n):
        if n in ZERO:
            return Const(0)
        if n not in self.vals:
            self.vals[n] = self.E.kw[n] if n in self.E.kw else profile_param(self.M, self.E.name, n, None)
        return self.vals[n]

    def radial(self, name, r, over={}):
        """call name(r, parameters); a surface quantity gets x = r, y = 0."""
        p = self.params(name)
        args = [r]
        if p[:2] == ['x', 'y']:
            args.append(Const(0))
        kw = {q: over[q] if q in over else self.par(q) for q in p[len(args):]}
        return self.E.call(name, args, kw)

    def conv(self, name, over={}):
        return self.E.call(name, [], {q: over[q] if q in over else self.par(q) for q in self.params(name)})

    def conversion(self, target):
        """(name of the conversion, amplitude it computes) applicable to the parameters of the lens model."""
        for a, b in CONV:
            if self.has(a):
                return a, b
        return None


def relations(P):
    """name -> (methods evaluated, function of nothing returning pairs (value, order, value, order))."""
    out = {}
    if P.has('mass_3d', 'density'):
        out['mass_3d'] = ('mass_3d', 'density')
    if P.has('mass_3d_lens', 'density_lens'):
        out['mass_3d_lens'] = ('mass_3d_lens', 'density_lens')
    if P.has('mass_2d', 'density_2d'):
        out['mass_2d'] = ('mass_2d', 'density_2d')
    c = P.conversion(None)
    lens = P.E.params
    round_ = not ELLIPTICAL & set(lens)
    if P.has('mass_2d_lens') and round_:
        out['mass_2d_lens'] = ('mass_2d_lens', 'derivatives')
    for rel, m, d in (('deflection', 'mass_2d', 'derivatives'), ('convergence', 'density_2d', 'hessian')):
        if not P.has(m) or not round_ or ('amp' in P.params(m) and not P.has('_amp2d_to_3d')):
            continue
        extra = [p for p in P.params(m) if p not in lens and p not in ('x', 'y', 'r', 'R', 'slope', 'scale_factor') and p not in ZERO]
        if not extra or (extra == ['rho0'] and c):
            out[rel] = (m, d)
    if c and P.has(*c):
        out['amplitude'] = c
    return out


def make(prog):
    def job(name, seed, main, fallback, kind):
        with MLRun(prog, seed, main, fallback=fallback, drop=True) as M:
            P = Profile(M, name)
            rels = relations(P)
            res = {}
            it = P.E.it
            r = M.num('r', kind, True, 1)
            pi = it.getattr(it.load('lenstronomy.LensModel.lens_model').globals.get('np') or NP(it), 'pi', P.E.S, None)
            for rel in rels:
                M.reset()
                try:
                    res[rel] = evaluate(M, P, rel, rels[rel], r, pi)
                except (Bottom, Budget) as e:
                    res[rel] = (NA, (), str(e)[:140])
                if M.run.weak and res[rel][0] in (F, SD):
                    res[rel] = (W,) + res[rel][1:]
            return res

    def batch(name, configs):
        out = []
        for c in configs:
            try:
                out.append((c, job(name, *c), None))
            except mlval.Unavailable:
                continue
            except Exception as e:      # noqa
                if os.environ.get('C45_TB'):
                    raise
                out.append((c, None, '%s: %s' % (type(e).__name__, str(e)[:160])))
        return out
    return job, batch


def NP(it):
    return it.load('lenstronomy.LensModel.Profiles.sis').globals['np']


def evaluate(M, P, rel, meths, r, pi):
    it, S = P.E.it, P.E.S

    def op(o, a, b):
        return it.binop(ast.Mult() if o == '*' else ast.Div(), a, b, S, None)

    def times(*a):
        x = a[0]
        for y in a[1:]:
            x = op('*', x, y)
        return x
    order = 0
    if rel in ('mass_3d', 'mass_3d_lens', 'mass_2d'):
        a = P.radial(meths[0], r)
        b = P.radial(meths[1], r)
        b = times(Const(2), pi, r, b) if rel == 'mass_2d' else times(Const(4), pi, r, r, b)
        order = 1
    elif rel in ('mass_2d_lens', 'deflection', 'convergence'):
        over = {}
        if P.has('_amp2d_to_3d') and rel != 'mass_2d_lens':
            # amplitudes of these are those of the 3d density
            s = P.par('sigma')
            over['amp'] = P.E.call('_amp2d_to_3d', [P.par('amp'), s, s], {})
        if 'rho0' in P.params(meths[0]):
            over['rho0'] = P.conv(P.conversion(None)[0])
        a = P.radial(meths[0], r, over)
        d = P.E.call(meths[1], [r, Const(0)], {p: P.par(p) for p in P.E.params})
        d = [value(M, q) for q in d.items]
        if None in d:
            return NA, (), ''
        if rel == 'convergence':
            b = mlval.add(d[0], d[3])
            a = times(Const(2), a)
        else:
            b = d[0]
            a = op('/', a, times(pi, r))
        return compare(M, value(M, a), 0, b, 0), signature(M.run), ''
    else:
        fwd, back = meths
        x = P.conv(fwd)
        amp = [p for p in P.params(fwd) if p not in P.params(back)]
        dens = [p for p in P.params(back) if p not in P.params(fwd)]
        if len(amp) != 1 or len(dens) != 1:
            return NA, (), 'amplitudes %s %s' % (amp, dens)
        a = P.conv(back, {dens[0]: x})
        b = P.par(amp[0])
    return compare(M, value(M, a), order, value(M, b), 0), signature(M.run), ''


def first(tier, seed):
    o = 1000000 * (seed - 1)
    n = 8 if tier == 'quick' else 60
    return ([(s + o, m, False, 'a') for s in range(n) for m in 'PQK'] + [(s + o, m, True, 'a') for s in range(n // 2) for m in 'PK']
            + [(500 + s + o, m, False, 's') for s in range(n) for m in 'PK'])


def run(ctx):
    ctx.explanation = (
        'The radial methods of every lens profile are interpreted in the value-numbering domain with derivatives of C23 at a symbolic radius: the derivative of an enclosed '
        'mass must be the shell (ring) times the density, the deflection the enclosed projected mass over pi R, the convergence the surface density.')
    ctx.rule('mass', 'derivatives of enclosed masses are densities times the area of the shell or ring')
    ctx.rule('lensing', 'deflection and convergence belong to the projected mass and surface density of the same profile')
    ctx.rule('amplitude', 'conversions between lensing amplitude and density amplitude are inverse to each other')
    names = [n for n in LensRunner(ctx.prog).names() if n not in SKIP]
    ctx.need(len(names) > 60, 'list of supported lens profiles')
    only = os.environ.get('C45_ONLY')
    if only:
        names = only.split(',')
    warm()
    job, batch = make(ctx.prog)
    res, errs = {}, {}
    rnd = first(ctx.tier, ctx.seed)
    size = 8
    for j, rs, err in pmap(batch, [(nm, rnd[i:i + size]) for nm in names for i in range(0, len(rnd), size)]):
        nm = j[0]
        if rs is None:
            errs.setdefault(nm, err)
            continue
        for (s, m, fb, kind), r, err in rs:
            if r is None:
                errs.setdefault(nm, err)
                continue
            for rel, (o, sig, e) in r.items():
                res.setdefault((nm, rel), Verdict()).add(o, sig, 'seed %d field %s%s' % (s, m, ' uninterpreted' if fb else ''))
                if e:
                    errs.setdefault((nm, rel), e)
    for nm in names:
        if nm in errs:
            ctx.undecided('mass', nm, errs[nm])
        for rel in RELS:
            v = res.get((nm, rel))
            if v is None:
                continue
            rule = 'mass' if rel in ('mass_3d', 'mass_3d_lens', 'mass_2d') else 'amplitude' if rel == 'amplitude' else 'lensing'
            st, d = v.status()
            ctx.ob(rule, '%s %s' % (nm, RELS[rel]), st, d + (' ' + errs[nm, rel] if (nm, rel) in errs else ''))
    ctx.min_ok('mass', 40)
    ctx.min_ok('lensing', 22)
    ctx.min_ok('amplitude', 6)
