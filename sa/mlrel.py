"""Relations between results of library functions, decided in the multi-level value domain (mlval)."""
import ast
import os
from .engine import Bottom, Budget
from .values import *
from . import mlval
from .mlrun import MLRun, refresh
from .nd import ND, NDInterp
from .engine import Interp
from .mlpool import warm, pmap, Verdict, signature, T, F, I, U, NA, W, Z, SD

_KEPT = {}
OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '**': ast.Pow}


class Tools:
    """what a relation may use: unknowns, calls of library functions, arithmetic."""

    def __init__(self, M, entry, nd=False):
        self.M = M
        self.isnd = nd
        k = (id(M.base), entry, nd)
        it = _KEPT.get(k)
        if it is not None and refresh(it):
            M.prog, M.D = it.prog, it.D
            it.budget = it.budget0
            if nd:
                it.approx.clear()
        else:
            it = M.interp(NDInterp if nd else Interp)
            _KEPT[k] = it
        self.it = it
        self.S = State({}, {})
        self.used = []

    def num(self, n, positive=None, var=None, angle=False, kind='s'):
        return self.M.num(n, kind, positive, var, angle)

    def arr(self, *items):
        return self.lift(list(items))

    def img(self, name, *shape, **kw):
        """array of unknowns."""
        out = []

        def rec(pre, sh):
            if not sh:
                out.append(self.num(name + ''.join('[%d]' % i for i in pre), **kw))
            else:
                for i in range(sh[0]):
                    rec(pre + (i,), sh[1:])
        rec((), shape)
        return self.it.nd(self.S, out, shape)

    def nd(self, flat, *shape):
        return self.it.nd(self.S, [self.lift(x) for x in flat], shape)

    def list(self, items):
        return self.it.new_list(self.S, [self.lift(i) for i in items])

    def lift(self, v):
        if isinstance(v, (list, tuple)):
            v = Tup([self.lift(i) for i in v], True)
            return self.it.arr(v, self.S) if self.isnd else v
        if isinstance(v, dict):
            r = self.it.alloc(self.S, HObj('dict', {k: self.lift(x) for k, x in v.items()}, None, None))
            return r
        return v if isinstance(v, V) else Const(v)

    def dict(self, **kw):
        return self.lift(kw)

    def get(self, path):
        mod, name = path.split(':')
        if path not in self.used:
            self.used.append(path)
        v = self.it.load(mod).globals
        out = None
        for i, part in enumerate(name.split('.')):
            out = v[part] if i == 0 else self.it.getattr(out, part, self.S, None)
        return out

    def call(self, path, *args, **kw):
        return self.it.call(self.get(path) if isinstance(path, str) else path, [self.lift(a) for a in args], {k: self.lift(a) for k, a in kw.items()}, self.S, None)

    def new(self, path, *args, **kw):
        return self.it.instantiate(self.get(path), [self.lift(a) for a in args], {k: self.lift(a) for k, a in kw.items()}, self.S, None)

    def m(self, obj, name, *args, **kw):
        return self.call(self.it.getattr(obj, name, self.S, None), *args, **kw)

    def attr(self, obj, name):
        return self.it.getattr(obj, name, self.S, None)

    def op(self, o, a, b):
        return self.it.binop(OPS[o](), self.lift(a), self.lift(b), self.S, None)

    def mul(self, *a):
        x = self.lift(a[0])
        for y in a[1:]:
            x = self.op('*', x, y)
        return x

    def np(self, name, *args):
        return self.it.call(self.it.getattr(self.it.load('lenstronomy.Util.param_util').globals['np'], name, self.S, None), [self.lift(a) for a in args], {}, self.S, None)

    @property
    def pi(self):
        return self.it.getattr(self.it.load('lenstronomy.Util.param_util').globals['np'], 'pi', self.S, None)

    def items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, ND):
            return self.it.iterate(v, self.S, None)[0]
        if isinstance(v, Ref):
            h = self.it.hget(self.S, v)
            if h.kind == 'list' and h.items is not None and h.summ is None:
                return list(h.items)
        raise Bottom('sequence not tracked')

    def stub(self, attrs, name='Stub'):
        cls = ClassV(name, self.it.frames[0].mod, None, [], {})
        return self.it.alloc(self.S, HObj('obj', dict(attrs), None, cls))

    def fn(self, tag, *vs, **kw):
        """uninterpreted function of scalars."""
        ks = []
        for v in vs:
            u = self.M.val(self.lift(v))
            d = None if u is None or isinstance(u, mlval.Cx) else u.d(0)
            if d is None:
                raise Bottom('argument of %s not tracked' % tag)
            ks.append(str(d))
        return self.num('%s(%s)' % (tag, ','.join(ks)), **kw)

    def splines(self, limit=128):
        """one-dimensional interpolations become functions of their knots, values and argument."""
        self.it.MAXUNROLL = limit

        def build(path, args, kw, S):
            old, self.S = self.S, S
            if path.endswith('RectBivariateSpline'):
                try:
                    x, y, z = (args + [None] * 3)[:3]
                    x, y, z = (self.flat(b if a is None else a) for a, b in ((x, kw.get('x')), (y, kw.get('y')), (z, kw.get('z'))))
                finally:
                    self.S = old
                if len(x) * len(y) != len(z):
                    raise Unsupported('spline grid')
                zt = [z[i * len(y) + j] for j in range(len(y)) for i in range(len(x))]
                opt = str(sorted((k, str(getattr(v, 'v', ''))) for k, v in kw.items() if k not in ('x', 'y', 'z')))

                def value(a, k):
                    if k.get('dx') is not None or k.get('dy') is not None or not isinstance(k.get('grid'), Const) or k['grid'].v is not False:
                        raise Unsupported('spline evaluation')
                    g = lambda *v: self.fn('spline%s%d,%d' % (opt, len(x), len(y)), *v)
                    one = lambda p, q: self.op('+', g(*(x + y + z + [p, q])), self.fn('spline%s%d,%d' % (opt, len(y), len(x)), *(y + x + zt + [q, p])))
                    p, q = a
                    ps, qs = self.flat(p), self.flat(q)
                    if len(ps) != len(qs):
                        raise Unsupported('spline broadcast')
                    return one(p, q) if not isinstance(p, Ref) else self.arr(*[one(i, j) for i, j in zip(ps, qs)])
                return self.native(value, 'spline')
            try:
                knots = [v for a in list(args[:2]) + [kw[k] for k in ('x', 'y') if k in kw] for v in self.flat(a)]
            finally:
                self.S = old
            more = sorted((k, str(getattr(v, 'v', ''))) for k, v in kw.items() if k not in ('x', 'y', 'w', 'bbox'))
            return self.native(lambda a, k: self.each(lambda x: self.fn('%s%s' % (path, more), *(knots + [x])), a[0]), 'spline')
        self.it.spline = build

    def native(self, f, name='native'):
        """callable for the library; f(args, kw) in this vocabulary."""
        def fn(it, args, kw, S, node):
            old, self.S = self.S, S
            try:
                return f(list(args), dict(kw))
            finally:
                self.S = old
        return Native(fn, name)

    def each(self, f, *vs):
        """elementwise over arrays, scalars stay scalars."""
        return self.it.map(f, self.S, *[self.lift(v) for v in vs])

    def cosmology(self, tag='chi', **attrs):
        """flat background: comoving distances are differences of one unknown per redshift."""
        zero = self.M.val(Const(0)).d(0)

        def chi(z):
            u = self.M.val(z)
            if u is not None and u.d(0) == zero:
                return Const(0)
            return self.fn(tag, z, positive=True)

        def wrap(f):
            def g(args, kw):
                args = args + [kw[k] for k in ('z', 'z1', 'z2', 'z_observer', 'z_source') if k in kw]
                if len(args) == 1:
                    args = [Const(0)] + args
                return self.stub({'value': self.each(f, *args)}, 'Quantity')
            return self.native(g, 'cosmology')
        tr = lambda a, b: self.op('-', chi(b), chi(a))
        da = lambda a, b: self.op('/', tr(a, b), self.op('+', 1, b))
        d = {'angular_diameter_distance': wrap(da), 'angular_diameter_distance_z1z2': wrap(da), 'comoving_transverse_distance': wrap(tr), 'comoving_distance': wrap(tr),
             '_comoving_transverse_distance_z1z2': wrap(tr)}
        d.update(attrs)
        return self.stub(d, 'Cosmology')

    def flat(self, v):
        """components of a nested sequence."""
        if isinstance(v, ND):
            return self.it.el(v, self.S)
        try:
            xs = self.items(v)
        except Bottom:
            return [v]
        return [y for x in xs for y in self.flat(x)]


USED = {}


def location(ctx, name):
    """source constructs a relation exercises: file:line of the first, names of the rest."""
    out = []
    for path in USED.get(name, ())[:4]:
        mod, nm = path.split(':')
        f = mod.replace('.', '/') + '.py'
        line = 0
        try:
            body = ast.parse(open(os.path.join(ctx.prog.root, f)).read()).body
            for part in nm.split('.'):
                d = next(n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part)
                line, body = d.lineno, d.body
        except Exception:       # noqa
            pass
        out.append('%s:%d %s' % (f, line, nm))
    return '; '.join(out) or None


def compare(T_, a, b):
    M = T_.M
    if isinstance(a, mlval.Val):
        u = a
    else:
        u = M.val(a)
    v = b if isinstance(b, mlval.Val) else M.val(b)
    if u is None or v is None or isinstance(u, mlval.Cx) or isinstance(v, mlval.Cx):
        return NA
    x, y = u.d(0), v.d(0)
    if x is None or y is None:
        return U
    p = M.run.p[M.run.main]
    if (x - y) % p == 0:
        return T if x else Z
    irr = u.irr | v.irr
    return I if irr & 1 or M.run.infeasible else SD if irr else F


RAISES = 'raises'
STRUCTURAL = ('shapes ', 'cannot broadcast', 'boolean index', 'index out', 'IndexError', 'too many indices', 'missing argument', 'unexpected keyword', 'too many arguments', 'arithmetic on None')
DEFINITE = STRUCTURAL + ('raise', 'assert', 'cannot ', 'boolean index', 'index out', 'KeyError', 'IndexError', 'too many indices')


RANK = {F: 0, SD: 1, W: 2, I: 3, NA: 4, U: 5, T: 6, Z: 7}


def evaluate(prog, fn, entry, seed, main, fallback, drop, nd=False):
    with MLRun(prog, seed, main, fallback=fallback, drop=drop, entry=entry) as M:
        H = Tools(M, entry, nd)
        M.reset()
        try:
            try:
                pairs = list(fn(H))
            finally:
                evaluate.used = H.used
        except (Bottom, Budget) as e:
            clean = not M.run.literals and not M.run.weak and not M.run.infeasible
            why = str(e)
            if why.startswith('no return') and H.it.last_end:
                why = H.it.last_end
            sure = isinstance(e, Bottom) and (clean and why.startswith(DEFINITE) or not M.run.weak and not M.run.infeasible and why.startswith(STRUCTURAL))
            return RAISES if sure else NA, (), '%s: %s' % (type(e).__name__, why[:140]), clean
        if not pairs:
            return NA, (), 'no pairs', False
        out = [compare(H, a, b) for a, b in pairs]
        r = min(out, key=lambda o: RANK[o])
        if M.run.weak and r in (F, SD):
            r = W
        why = ''
        if r in (F, SD):
            why = 'component %d' % next(i for i, o in enumerate(out) if o == r)
        elif r == NA:
            a, b = pairs[out.index(NA)]
            why = 'not tracked: %r / %r' % (a, b)
        if r == Z and any(o == T for o in out):
            r = T
        return r, signature(M.run), why[:200], False


def seeds(tier, seed, n=6):
    o = 1000000 * (seed - 1)
    n = n if tier == 'quick' else 10 * n
    return [(s + o, m, False) for s in range(n) for m in 'PQK'] + [(s + o, m, True) for s in range(n // 2) for m in 'PK']


def decide(ctx, rels, entry='lenstronomy.Util.param_util', drop=False, n=6, where=None, nd=False):
    """rels: [(rule, construct, fn)]; one obligation each."""
    warm()
    cfg = seeds(ctx.tier, ctx.seed, n)

    def batch(i):
        rule, name, fn = rels[i]
        out = []
        for s, m, fb in cfg:
            try:
                out.append(((s, m, fb), evaluate(ctx.prog, fn, entry, s, m, fb, drop, nd), None))
            except mlval.Unavailable:
                continue
            except Exception as e:      # noqa
                if os.environ.get('ML_TB'):
                    import traceback
                    traceback.print_exc()
                out.append(((s, m, fb), None, '%s: %s' % (type(e).__name__, str(e)[:160])))
        return out, getattr(evaluate, 'used', [])
    for (i,), rs, err in pmap(batch, [(i,) for i in range(len(rels))]):
        rule, name, fn = rels[i]
        if rs is None:
            ctx.undecided(rule, name, err)
            continue
        rs, USED[name] = rs
        v = Verdict()
        notes = []
        outs = [r for _, r, err in rs if r is not None]
        if len(outs) >= 6 and all(r[0] == RAISES for r in outs):
            ctx.ob(rule, name, 'bad', 'raises an exception (%s) on valid input in all %d interpretations' % (outs[0][2], len(outs)), where(name) if where else location(ctx, name))
            continue
        rs = [(k, (NA,) + tuple(r[1:]) if r is not None and r[0] == RAISES else r, err) for k, r, err in rs]
        for (s, m, fb), r, err in rs:
            if r is None:
                notes.append(err)
                continue
            v.add(r[0], r[1], 'seed %d field %s%s' % (s, m, ' uninterpreted' if fb else ''), r[2])
            if r[2] and r[0] == NA:
                notes.append(r[2])
        st, d = v.status()
        ctx.ob(rule, name, st, d + (' ' + notes[0] if st == 'undecided' and notes else ''), where(name) if where else location(ctx, name))
