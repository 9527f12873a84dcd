"""Symbolic lens / light profiles: profile methods become uninterpreted functions of their exact arguments."""
from .values import *
from . import poly
from .vec import VecRunner

OUTS = {'function': ('psi',), 'derivatives': ('ax', 'ay'), 'hessian': ('fxx', 'fxy', 'fyx', 'fyy')}


class Uninterpreted:
    """issues one symbol per (function, exact argument values)."""

    def __init__(self, D):
        self.D = D
        self.table = {}
        self.calls = []
        self.lost = []

    def key(self, it, v, S):
        if isinstance(v, Num):
            if v.pay.sym is None:
                return None
            return repr(v.pay.sym.key())
        if isinstance(v, Const):
            if isinstance(v.v, bool) or not isinstance(v.v, (int, float)):
                return repr(v.v)
            c = poly.const(v.v)
            return repr(c.key()) if c is not None else repr(v.v)
        if isinstance(v, Tup):
            ks = [self.key(it, x, S) for x in v.items]
            if len(ks) == 1:
                return ks[0]
            return None if None in ks else '(%s)' % ','.join(ks)
        if isinstance(v, Ref):
            h = it.hget(S, v)
            if h.kind == 'list' and h.items is not None and h.summ is None:
                return self.key(it, Tup(h.items), S)
        return None

    def sym(self, name, args):
        k = (name,) + tuple(args)
        if k not in self.table:
            self.table[k] = '%s#%d' % (name, sum(1 for q in self.table if q[0] == name))
        return poly.symbol(self.table[k])

    def term(self, tag, out, args):
        return self.sym('%s.%s' % (tag, out), ['%s=%s' % (n, repr(args[n].key()) if not isinstance(args[n], str) else args[n]) for n in sorted(args)])

    def native(self, tag, outs, argnames=()):
        def fn(it, args, kw, S, node):
            named = {}
            ok = True
            deps = EMPTY
            for i, v in enumerate(args):
                n = argnames[i] if i < len(argnames) else '_%d' % i
                named[n] = v
            for n, v in kw.items():
                named['r' if n == 'R' else n] = v
            ks = []
            for n in sorted(named):
                k = self.key(it, named[n], S)
                deps |= it.deps(named[n], S)
                if k is None:
                    ok = False
                ks.append('%s=%s' % (n, k))
            self.calls.append((tag, tuple(ks), it.where(node) if node is not None else ''))
            if not ok:
                self.lost.append((tag, tuple(ks)))
            res = []
            for o in outs:
                nm = '%s.%s' % (tag, o)
                res.append(Num(self.D.mk(sym=self.sym(nm, ks) if ok else None, deps=deps | frozenset([nm])), EMPTY, 'a'))
            return res[0] if len(outs) == 1 else Tup(res)
        return Native(fn, tag)


def stub_profile(it, S, ref, tag, U, methods=OUTS):
    h = it.hget(S, ref)
    items = dict(h.items)
    for m, outs in methods.items():
        f = h.cls.lookup(m)[0]
        names = ()
        if isinstance(f, FuncV):
            a = [x.arg for x in f.node.args.args]
            names = tuple('r' if n == 'R' else n for n in (a if f.kind == 'static' else a[1:]))
        items[m] = U.native(tag, outs, names)
    S.heap[ref.id] = h.rep(items=items)


class SymLens(VecRunner):
    def __init__(self, prog, entry='lenstronomy.LensModel.lens_model', budget=900000):
        super().__init__(prog, entry, budget)
        poly.FP = True

    def num(self, n, kind='a'):
        return Num(self.D.mk(sym=poly.symbol(n), deps=frozenset([n])), EMPTY, kind)

    def build(self, it, S, names, **kw):
        c = self.cls(it, 'lenstronomy.LensModel.lens_model', 'LensModel')
        k = {'lens_model_list': it.new_list(S, [Const(n) for n in names])}
        k.update({q: self.py(it, S, v) for q, v in kw.items()})
        return it.instantiate(c, [], k, S, None)


class Bench:
    """one interpreter session with an uninterpreted-function table."""

    def __init__(self, prog, entry='lenstronomy.LensModel.lens_model', budget=900000):
        self.R = SymLens(prog, entry, budget)
        self.it = self.R.interp()
        self.S = State({}, {})
        self.U = Uninterpreted(self.R.D)

    def kw(self, pars):
        return self.R.py(self.it, self.S, [{a: (self.R.num(b, 's') if isinstance(b, str) else b) for a, b in p.items()} for p in pars])

    def cls(self, mod, name):
        return self.R.cls(self.it, mod, name)

    def stub_obj(self, attrs, name='Stub', S=None):
        cls = ClassV(name, self.it.frames[0].mod, None, [], {})
        return self.it.alloc(self.S if S is None else S, HObj('obj', dict(attrs), None, cls))

    def setattrs(self, ref, **attrs):
        h = self.it.hget(self.S, ref)
        self.S.heap[ref.id] = h.rep(items=dict(h.items, **attrs))

    def callm(self, obj, m, *args, **kw):
        return self.it.call(self.it.getattr(obj, m, self.S, None), list(args), kw, self.S, None)

    def items(self, v, S=None):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            h = self.it.hget(self.S if S is None else S, v)
            if h.kind == 'list' and h.items is not None and h.summ is None:
                return list(h.items)
        return None

    def item(self, v, i):
        x = self.items(v)
        return x[i] if x is not None and i < len(x) else Top()

    def val(self, v):
        """exact symbolic value or None."""
        if isinstance(v, Num):
            return v.pay.sym
        if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            return poly.const(v.v)
        if isinstance(v, Tup) and v.arr and len(v.items) == 1:
            return self.val(v.items[0])
        return None

    def compare(self, ctx, rule, construct, got, want, where, seq=False, names=None):
        """got must equal the list of symbolic values `want` (a single value if it has one element, unless seq)."""
        if isinstance(got, Top):
            ctx.undecided(rule, construct, 'value not tracked')
            return False
        if seq or len(want) > 1:
            gs = self.items(got)
            if gs is None:
                ctx.undecided(rule, construct, 'result sequence not tracked')
                return False
            if len(gs) != len(want):
                ctx.bad(rule, construct, 'returns %d values, expected %d' % (len(gs), len(want)), where)
                return False
        else:
            gs = [got]
        st = 'ok'
        for i, (g, w) in enumerate(zip(gs, want)):
            r = self.same(g, w)
            if r == 'bad':
                ctx.bad(rule, construct, '%s: computes %r instead of %r' % (names[i] if names else 'component %d' % i, self.val(g), w), where)
                return False
            if r == '?':
                st = '?'
        if st == 'ok':
            ctx.ok(rule, construct)
        else:
            ctx.undecided(rule, construct, 'value not tracked')
        return st == 'ok'

    def same(self, g, w):
        v = self.val(g)
        if v is None or w is None:
            return '?'
        if v == w:
            return 'ok'
        if self.it.lost_stores:
            return '?'
        if isinstance(v, poly.Fp) and v.irr or isinstance(w, poly.Fp) and w.irr:
            return '?'
        return 'bad'


def polynomial_profile(B, ref, tag, deg):
    """profile whose potential is a polynomial of degree `deg` with symbolic coefficients; returns the coefficients of the derivatives at the origin."""
    co = {}
    for n in range(1, deg + 1):
        for i in range(n + 1):
            m = 'x' * (n - i) + 'y' * i
            co[m] = poly.symbol('%s_%s' % (tag, m))
    fact = [1, 1, 2, 6, 24]

    def psi_d(dx, dy, x, y):
        """d^dx/dx d^dy/dy of sum co[m] x^a y^b / (a! b!)."""
        t = poly.const(0)
        for m, q in co.items():
            a, b = m.count('x') - dx, m.count('y') - dy
            if a < 0 or b < 0:
                continue
            z = poly.mul(q, poly.mul(poly.power(x, poly.const(a)), poly.power(y, poly.const(b))))
            t = poly.add(t, poly.div(z, poly.const(fact[a] * fact[b])))
        return t

    def mk(specs):
        def fn(it, args, kw, S, node):
            q = dict(zip(('x', 'y'), args))
            q.update({k: v for k, v in kw.items() if k in ('x', 'y')})
            x, y = B.val(q['x']), B.val(q['y'])
            deps = it.deps(q['x'], S) | it.deps(q['y'], S)
            out = [Num(B.R.D.mk(sym=None if x is None or y is None else psi_d(dx, dy, x, y), deps=deps), EMPTY, 'a') for dx, dy in specs]
            return out[0] if len(out) == 1 else Tup(out)
        return Native(fn, tag)
    h = B.it.hget(B.S, ref)
    B.S.heap[ref.id] = h.rep(items=dict(h.items, function=mk([(0, 0)]), derivatives=mk([(1, 0), (0, 1)]), hessian=mk([(2, 0), (1, 1), (1, 1), (0, 2)])))
    return co


def chi(z, tag='chi'):
    """comoving distance to z: one unknown per redshift."""
    return poly.const(0) if z == 0 else poly.symbol('%s(%s)' % (tag, z))


def cosmo_stub(B, tag='chi'):
    """flat background: comoving distance between two redshifts is the difference of one unknown per redshift."""
    def redshifts(it, v, S):
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return [v.v], False
        xs = B.items(v, S)
        if xs is not None and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in xs):
            return [x.v for x in xs], True
        if isinstance(v, Num) and v.pay.sym is not None and v.pay.sym.is_const():
            return [float(v.pay.sym.const())], False
        return None, False

    def wrap(f):
        def fn(it, args, kw, S, node):
            args = list(args) + [kw[k] for k in ('z', 'z1', 'z2', 'z_observer', 'z_source') if k in kw]
            if len(args) == 1:
                args = [Const(0)] + args
            a, l1 = redshifts(it, args[0], S)
            b, l2 = redshifts(it, args[1], S)
            if a is None or b is None:
                r = Top()
            else:
                n = max(len(a), len(b))
                a = a * n if len(a) == 1 else a
                b = b * n if len(b) == 1 else b
                for p, q in zip(a, b):
                    if p < q:
                        poly.assume_positive(poly.sub(chi(q, tag), chi(p, tag)))
                vals = [Num(B.R.D.mk(sym=f(p, q), deps=EMPTY), EMPTY, 's') for p, q in zip(a, b)]
                r = Tup(vals, True) if (l1 or l2) else vals[0]
            return B.stub_obj({'value': r}, 'Quantity', S)
        return Native(fn, 'cosmology')

    def rz(z):
        return poly.const(repr(z) if isinstance(z, float) else z)

    def da(p, q):
        return poly.div(poly.sub(chi(q, tag), chi(p, tag)), poly.add(poly.const(1), rz(q)))

    def tr(p, q):
        return poly.sub(chi(q, tag), chi(p, tag))
    return B.stub_obj({'angular_diameter_distance': wrap(da), 'angular_diameter_distance_z1z2': wrap(da), 'comoving_transverse_distance': wrap(tr),
                       'comoving_distance': wrap(tr), '_comoving_transverse_distance_z1z2': wrap(tr)}, 'Cosmology')


class patched_constants:
    """physical constants become symbols K_<name> while interpreting."""
    NAMES = ('G', 'c', 'M_sun', 'Mpc', 'kpc', 'pc', 'day_s', 'arcsec', 'AU', 'M_earth', 'M_jupiter')

    def __init__(self, prog):
        self.prog = prog

    def __enter__(self):
        poly.FP = True
        R = SymLens(self.prog)
        it = R.interp()
        m = it.load('lenstronomy.Util.constants')
        self.mod = m
        self.old = dict(m.globals)
        for n in self.NAMES:
            if n in m.globals:
                m.globals[n] = Num(R.D.mk(sym=poly.symbol('K_' + n), deps=EMPTY), EMPTY, 's')
        return self

    def __exit__(self, *a):
        self.mod.globals.clear()
        self.mod.globals.update(self.old)
