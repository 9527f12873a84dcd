"""Graded numeric domain (abstract values of numbers/arrays).

A payload is a product of independent components:

* ``u``  scale grades, one per base unit: v -> lambda**g * v when every quantity of
  that base unit is multiplied by lambda.  g is a Laurent polynomial (grades.Poly).
* ``p``  mirror parities (Z2 grades), one per mirror axis.
* ``w``  translation weights, one per axis: v -> v + w*t under a common shift t.
* ``sym`` canonical symbolic name of a scalar (only used for exponents/weights).
* ``deps`` set of entry-argument names the value may depend on.

Component values besides definite ones:
  'Z' exact zero (any grade), 'L' tiny/huge literal (softening; adapts to its context),
  'T' unknown, Bad(...) definitely not homogeneous (carries the offending construct).
"""
from fractions import Fraction
from . import poly
from .poly import Poly

EMPTY = frozenset()


class Bad:
    __slots__ = ("why", "where")

    def __init__(self, why, where):
        self.why = why
        self.where = where

    def __repr__(self):
        return "BAD<%s @ %s>" % (self.why, self.where)


class Ang:
    """angle whose cosine/sine transform like x/r, y/r (times multiplicity n)."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ang) and o.n == self.n

    def __hash__(self):
        return hash(("ang", self.n))

    def __repr__(self):
        return "Ang(%s)" % self.n


class G:
    __slots__ = ("u", "p", "w", "sym", "deps", "cx")

    def __init__(self, u, p, w, sym=None, deps=EMPTY, cx=False):
        self.cx = cx
        self.u = u
        self.p = p
        self.w = w
        self.sym = sym
        self.deps = deps

    def same(self, o):
        return (self is o) or (self.u == o.u and self.p == o.p and self.w == o.w
                               and self.sym == o.sym and self.deps == o.deps and self.cx == o.cx)

    def __repr__(self):
        return "G(u=%r p=%r w=%r sym=%r deps=%s)" % (
            self.u, self.p, self.w, self.sym, sorted(self.deps))


class Domain:
    def __init__(self, bases=(), parities=0, weights=0, use_deps=True):
        self.bases = tuple(bases)
        self.nu = len(bases)
        self.np_ = parities
        self.nw = weights
        self.use_deps = use_deps
        self.wstrict = False
        self.steps = {}
        self.track = bool(self.nu or parities or weights)
        self.zero = G(('Z',) * self.nu, ('Z',) * parities, (poly.ZERO,) * weights, poly.ZERO)
        self.top = G(('T',) * self.nu, ('T',) * parities, ('T',) * weights)
        self.lit = G(('L',) * self.nu, ('L',) * parities, (poly.ZERO,) * weights)
        self.big = G(('B',) * self.nu, ('B',) * parities, (poly.ZERO,) * weights)
        self.one = G((poly.ZERO,) * self.nu, (0,) * parities, (poly.ZERO,) * weights, poly.ONE)
        # comparison/boolean/integer-count results: dimensionless, invariant
        self.plain = G((poly.ZERO,) * self.nu, (0,) * parities, (poly.ZERO,) * weights)

    # ------------------------------------------------------------------
    def mk(self, u=None, p=None, w=None, sym=None, deps=EMPTY):
        return G(tuple(u) if u is not None else (poly.ZERO,) * self.nu,
                 tuple(p) if p is not None else (0,) * self.np_,
                 tuple(w) if w is not None else (poly.ZERO,) * self.nw, sym, deps)

    def const(self, v):
        if isinstance(v, bool):
            return self.one if v else self.zero
        if isinstance(v, complex) and poly.ML:
            return G((), (), (), poly.const(v), EMPTY, True)
        if isinstance(v, complex):
            if v == 0:
                return self.zero
            if v.real == 0:
                return G((poly.ZERO,) * self.nu, (1,) * self.np_, (poly.ZERO,) * self.nw, None, EMPTY, True)
            if v.imag == 0:
                return self.const(v.real)
            return G((poly.ZERO,) * self.nu, ('T',) * self.np_, (poly.ZERO,) * self.nw, None, EMPTY, True)
        if v == 0:
            return self.zero
        if v != v or v in (float('inf'), float('-inf')):
            return self.big
        s = poly.const(v)
        if abs(v) >= 1e4:
            return G(('B',) * self.nu, ('B',) * self.np_, (poly.ZERO,) * self.nw, s)
        if abs(v) <= 2e-3:
            return G(('L',) * self.nu, ('L',) * self.np_, (poly.ZERO,) * self.nw, s)
        return G((poly.ZERO,) * self.nu, (0,) * self.np_, (poly.ZERO,) * self.nw, s)

    def withdeps(self, g, deps):
        if not deps or deps <= g.deps:
            return g
        return G(g.u, g.p, g.w, g.sym, g.deps | deps, g.cx)

    def _deps(self, *gs):
        d = gs[0].deps
        for g in gs[1:]:
            if g.deps and not g.deps <= d:
                d = d | g.deps
        return d

    # ---- component ops ----------------------------------------------------
    @staticmethod
    def c_add(a, b, where, what):
        if a is b:
            return a
        if isinstance(a, Bad):
            return a
        if isinstance(b, Bad):
            return b
        if a == b:
            return a
        if a in ('Z',):
            return b
        if b in ('Z',):
            return a
        if a == 'T' or b == 'T':
            return 'T'
        if a in ('L', 'B'):
            return b
        if b in ('L', 'B'):
            return a
        if isinstance(a, Ang) or isinstance(b, Ang):
            # angle +- even/odd offset keeps being an angle only if offset is "odd" (1)
            o = b if isinstance(a, Ang) else a
            if o == 1:
                return a if isinstance(a, Ang) else b
            return 'T'
        return Bad("%s of quantities of different %s" % (what, 'grade (%s vs %s)' % (a, b)), where)

    def _note_step(self, a, b):
        """a tiny literal added to a graded quantity is a finite-difference step of that grade."""
        for l, o in ((a, b), (b, a)):
            if l.sym is not None and l.sym.is_const():
                v = l.sym.const()
                if v == 0:
                    continue
                for i, (x, y) in enumerate(zip(l.u, o.u)):
                    if x == 'L' and isinstance(y, Poly) and not y.is_zero():
                        self.steps.setdefault((i, abs(v)), set()).add(y)

    def _step_grade(self, i, b):
        if b.sym is None or not b.sym.is_const() or b.sym.const() == 0:
            return None
        v = abs(b.sym.const())
        g = set()
        for (j, c), gs in self.steps.items():
            if j == i and Fraction(1, 5) < c / v < 5:
                g |= gs
        return g.pop() if len(g) == 1 else None

    def add(self, a, b, where, sub=False):
        if 'L' in a.u or 'L' in b.u:
            self._note_step(a, b)
        u = tuple(self.c_add(x, y, where, 'sum') for x, y in zip(a.u, b.u))
        if a.p is b.p or a.p == b.p and not any(isinstance(x, Ang) for x in a.p):
            p = a.p
        else:
            soft = a.cx or b.cx or self._angle_offset(a, b) or self._angle_offset(b, a)
            p = tuple(self._p_add(x, y, where) for x, y in zip(a.p, b.p))
            if soft:
                p = tuple('T' if isinstance(z, Bad) and not isinstance(x, Bad) and not isinstance(y, Bad) else z
                          for x, y, z in zip(a.p, b.p, p))
        w = tuple(self._w_add(x, y, sub) for x, y in zip(a.w, b.w))
        sym = None
        if a.sym is not None and b.sym is not None:
            sym = poly.add(a.sym, b.sym, -1 if sub else 1)
        return G(u, p, w, sym, self._deps(a, b), a.cx or b.cx)

    @staticmethod
    def _angle_offset(a, b):
        """dimensionless odd quantity (an angle) plus a pure literal such as pi/2."""
        return (b.sym is not None and not b.deps and any(x == 1 for x in a.p)
                and all(isinstance(x, Poly) and x.is_zero() for x in a.u))

    def _p_add(self, x, y, where):
        if isinstance(x, Ang) and isinstance(y, Ang):
            return 'T'
        return self.c_add(x, y, where, 'sum')

    @staticmethod
    def _w_add(x, y, sub):
        if isinstance(x, Bad):
            return x
        if isinstance(y, Bad):
            return y
        if x == 'T' or y == 'T':
            return 'T'
        if x == 'NZ' or y == 'NZ':
            o = y if x == 'NZ' else x
            if isinstance(o, Poly) and o.is_zero():
                return 'NZ'
            return 'T'
        r = poly.add(x, y, -1 if sub else 1)
        return 'T' if r is None else r

    def mul(self, a, b, where, div=False):
        u = []
        for i, (x, y) in enumerate(zip(a.u, b.u)):
            if y == 'L' and div:
                y = self._step_grade(i, b) or y
            u.append(self._u_mul(x, y, div))
        p = []
        for x, y in zip(a.p, b.p):
            p.append(self._p_mul(x, y, a, b, div))
        w = []
        for x, y in zip(a.w, b.w):
            w.append(self._w_mul(x, y, a, b, div, where))
        sym = None
        if a.sym is not None and b.sym is not None:
            sym = poly.div(a.sym, b.sym) if div else poly.mul(a.sym, b.sym)
        return G(tuple(u), tuple(p), tuple(w), sym, self._deps(a, b), a.cx or b.cx)

    @staticmethod
    def _u_mul(x, y, div):
        if isinstance(x, Bad):
            return x
        if isinstance(y, Bad):
            return y
        if x == 'Z':
            return 'Z'
        if y == 'Z':
            return 'T' if div else 'Z'
        if x == 'T' or y == 'T':
            return 'T'
        if y == 'L' and div:
            return 'T'
        if x == 'L' or y == 'L':
            o = y if x == 'L' else x
            if o in ('L', 'B') or (isinstance(o, Poly) and o.is_zero()):
                return 'L'
        if x == 'B' and y == 'B':
            return 'B'
        if x in ('L', 'B'):
            x = poly.ZERO
        if y in ('L', 'B'):
            y = poly.ZERO
        if y.is_zero():
            return x
        r = poly.sub(x, y) if div else poly.add(x, y)
        return 'T' if r is None else r

    @staticmethod
    def _p_mul(x, y, a, b, div):
        if isinstance(y, Bad) and (div or isinstance(x, Bad)):
            return 'T'
        if isinstance(x, Bad):
            return x
        if isinstance(y, Bad):
            return y
        if x == 'Z':
            return 'Z'
        if y == 'Z':
            return 'T' if div else 'Z'
        if x == 'T' or y == 'T':
            return 'T'
        if y == 'L' and div:
            return 'T'
        if x == 'L' or y == 'L':
            o = y if x == 'L' else x
            if o in ('L', 'B') or o == 0:
                return 'L'
        if x == 'B' and y == 'B':
            return 'B'
        if x in ('L', 'B'):
            x = 0
        if y in ('L', 'B'):
            y = 0
        if isinstance(x, Ang) or isinstance(y, Ang):
            if isinstance(x, Ang) and isinstance(y, Ang):
                return 'T'
            ang, o, g = (x, y, b) if isinstance(x, Ang) else (y, x, a)
            if div and not isinstance(x, Ang):
                return 'T'
            if o == 0 and g.sym is not None and g.sym.is_const():
                c = g.sym.const()
                if div:
                    c = 1 / c if c else 0
                n = ang.n * c
                return Ang(n)
            if o == 1 and div is False and g.sym is None:
                # multiplication with the imaginary unit: handled in exp
                return 'T'
            return 'T'
        return x ^ y

    @staticmethod
    def _w_mul(x, y, a, b, div, where):
        if isinstance(x, Bad):
            return x
        if isinstance(y, Bad):
            return y
        if x == 'T' or y == 'T':
            return 'T'
        xz = isinstance(x, Poly) and x.is_zero()
        yz = isinstance(y, Poly) and y.is_zero()
        if xz and yz:
            return poly.ZERO
        if xz and a.sym is not None and a.sym.is_zero():
            return poly.ZERO
        if yz and b.sym is not None and b.sym.is_zero():
            return poly.ZERO
        if not xz and yz:
            if isinstance(x, Poly) and b.sym is not None:
                r = poly.div(x, b.sym) if div else poly.mul(x, b.sym)
                return 'NZ' if r is None else r
            return 'NZ'
        if xz and not yz:
            if div:
                return Bad("division by a position-dependent (not translation-invariant) quantity", where)
            if isinstance(y, Poly) and a.sym is not None:
                r = poly.mul(y, a.sym)
                return 'NZ' if r is None else r
            return 'NZ'
        return Bad("product of two absolute positions", where)

    # non-linear function: requires translation invariance
    def nl_w(self, a, where, what):
        out = []
        for x in a.w:
            if isinstance(x, Bad) or x == 'T':
                out.append(x)
            elif isinstance(x, Poly) and x.is_zero():
                out.append(x)
            else:
                out.append(Bad("%s of an absolute position" % what, where))
        return tuple(out)

    def neg(self, a):
        w = tuple(poly.sub(poly.ZERO, x) if isinstance(x, Poly) else x for x in a.w)
        sym = poly.sub(poly.ZERO, a.sym) if a.sym is not None else None
        p = tuple(Ang(-x.n) if isinstance(x, Ang) else x for x in a.p)
        return G(a.u, p, w, sym, a.deps, a.cx)

    def pow(self, a, b, where):
        deps = self._deps(a, b)
        sym = poly.power(a.sym, b.sym) if a.sym is not None and b.sym is not None else None
        if b.sym is not None and b.sym.is_zero():
            return G((poly.ZERO,) * self.nu, (0,) * self.np_, (poly.ZERO,) * self.nw, poly.ONE, deps)
        if b.sym is not None and b.sym == poly.ONE:
            return a
        u = []
        for x, y in zip(a.u, b.u):
            if isinstance(y, Bad):
                u.append(y)
            elif isinstance(y, Poly) and not y.is_zero():
                u.append(Bad("exponent carries a unit (%s)" % y, where))
            elif isinstance(x, Bad):
                u.append(x)
            elif x == 'Z':
                u.append('Z' if b.sym is not None and b.sym.is_const() and b.sym.const() > 0 else 'T')
            elif x in ('T',):
                u.append('T')
            elif x in ('L', 'B'):
                u.append(x)
            elif x.is_zero():
                u.append(x if y != 'T' else 'T')
            elif b.sym is not None:
                r = poly.mul(x, b.sym)
                u.append('T' if r is None else r)
            else:
                u.append('T')
        p = []
        for x, y in zip(a.p, b.p):
            if isinstance(x, Bad) or isinstance(y, Bad):
                p.append('T')
            elif y == 1:
                p.append('T')
            elif x == 'Z':
                p.append('T')
            elif x in ('L', 'B'):
                p.append(x)
            elif x == 'T' or isinstance(x, Ang):
                p.append('T')
            elif x == 0:
                p.append(0 if y != 'T' else 'T')
            elif b.sym is not None and b.sym.is_const() and b.sym.const().denominator == 1:
                p.append(int(b.sym.const()) % 2)
            else:
                p.append('T')
        w = tuple(self._w2(x, y) for x, y in zip(self.nl_w(a, where, 'power'), self.nl_w(b, where, 'exponent')))
        return G(tuple(u), tuple(p), w, sym, deps, a.cx or b.cx)

    @staticmethod
    def _w2(x, y):
        if isinstance(x, Bad):
            return x
        if isinstance(y, Bad):
            return y
        if x == 'T' or y == 'T':
            return 'T'
        return poly.ZERO

    # ---- joins -------------------------------------------------------------
    def join(self, a, b, where):
        if a is b or a.same(b):
            return a
        u = tuple(x if x is y else self.c_add(x, y, where, 'alternative values') for x, y in zip(a.u, b.u))
        p = tuple(x if x is y or x == y else ('T' if isinstance(x, Ang) or isinstance(y, Ang)
                  else self.c_add(x, y, where, 'alternative values')) for x, y in zip(a.p, b.p))
        w = []
        for x, y in zip(a.w, b.w):
            if isinstance(x, Bad):
                w.append(x)
            elif isinstance(y, Bad):
                w.append(y)
            elif x == y:
                w.append(x)
            elif self.wstrict and isinstance(x, Poly) and isinstance(y, Poly):
                w.append(Bad('alternative values that shift differently with the frame', where))
            else:
                w.append('T')
        sym = a.sym if a.sym == b.sym else None
        if a.cx or b.cx:
            p = tuple('T' if isinstance(z, Bad) and not isinstance(x, Bad) and not isinstance(y, Bad) else z
                      for x, y, z in zip(a.p, b.p, p))
        return G(u, p, tuple(w), sym, self._deps(a, b), a.cx or b.cx)

    # ---- unary functions ----------------------------------------------------
    def func1(self, name, a, where):
        """transcendental / elementary unary function."""
        deps = a.deps
        if name == 'sqrt':
            return self.pow(a, self.const(0.5), where)
        if name == 'square':
            return self.pow(a, self.const(2), where)
        if name == 'reciprocal':
            return self.mul(self.one, a, where, div=True)
        if name in ('abs', 'absolute', 'fabs'):
            p = tuple(0 if x in (0, 1) and not isinstance(x, Bad) else ('T' if isinstance(x, Ang) else x) for x in a.p)
            w = self.nl_w(a, where, 'absolute value')
            return G(a.u, p, w, poly.opaque('abs', a.sym) if a.sym is not None and not a.sym.is_const() else a.sym, deps)
        if name == 'sign' and poly.ML:
            return G(a.u, a.p, a.w, poly.opaque('sign', a.sym), deps)
        if name == 'sign':
            return G(tuple(self._flat(x) for x in a.u), a.p, self.nl_w(a, where, 'sign'), None, deps)
        sym = None
        if a.sym is not None:
            sym = poly.opaque(name, a.sym)
        # scale grades
        u = []
        for x in a.u:
            if isinstance(x, Bad):
                u.append(x)
            elif x == 'T':
                u.append('T')
            elif x in ('Z', 'L', 'B'):
                u.append(poly.ZERO)
            elif x.is_zero():
                u.append(x)
            elif name in ('log', 'log10', 'log2', 'log1p'):
                u.append('T' if name != 'log1p' else Bad("log1p of a dimensional quantity (grade %s)" % x, where))
            else:
                u.append(Bad("%s of a dimensional quantity (grade %s)" % (name, x), where))
        p = []
        for x in a.p:
            p.append(self._par1(name, x))
        w = self.nl_w(a, where, name)
        return G(tuple(u), tuple(p), w, sym, deps, a.cx)

    @staticmethod
    def _flat(x):
        if isinstance(x, Bad) or x == 'T':
            return x
        return poly.ZERO

    ODD = {'sin', 'tan', 'arcsin', 'arctan', 'sinh', 'tanh', 'arcsinh', 'arctanh', 'erf', 'cbrt', 'sinc_odd',
           'asin', 'atan', 'asinh', 'atanh', 'erfi', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'dawsn'}
    EVEN = {'cos', 'cosh', 'sinc', 'j0', 'i0', 'k0_even', 'sec'}

    def _par1(self, name, x):
        # a mixed-parity argument can combine to a definite parity (log(a + sqrt(1 + a^2)))
        if isinstance(x, Bad) or x == 'T':
            return 'T'
        if isinstance(x, Ang):
            n = x.n
            if Fraction(n).denominator != 1:
                return 'T'
            n = int(n)
            if name == 'cos':
                return n % 2
            if name == 'sin':
                return (n + 1) % 2
            if name == 'tan':
                return 1
            return 'T'
        if x == 'Z':
            if name in self.ODD:
                return 'Z'
            return 0
        if x in ('L', 'B'):
            return 'L' if name in self.ODD else 0
        if x == 0:
            return 0
        if name in self.ODD:
            return 1
        if name in self.EVEN:
            return 0
        return 'T'

    def opaque(self, args, where):
        """generic function of dimensionless, invariant, even arguments (special functions)."""
        if not args:
            return self.plain
        deps = self._deps(*args)
        u, p, w = [], [], []
        for i in range(self.nu):
            r = poly.ZERO
            for a in args:
                x = a.u[i]
                if isinstance(x, Bad):
                    r = x
                    break
                if x == 'T':
                    r = 'T'
                elif x in ('Z', 'L', 'B'):
                    pass
                elif not x.is_zero():
                    r = Bad("dimensional argument (grade %s) of a transcendental function" % x, where)
                    break
            u.append(r)
        for i in range(self.np_):
            r = 0
            for a in args:
                x = a.p[i]
                if isinstance(x, Bad):
                    r = 'T'
                elif x not in (0, 'Z', 'L', 'B'):
                    r = 'T'
            p.append(r)
        for i in range(self.nw):
            r = poly.ZERO
            for a in args:
                x = a.w[i]
                if isinstance(x, Bad):
                    r = x
                    break
                if x == 'T':
                    r = 'T'
                elif not (isinstance(x, Poly) and x.is_zero()):
                    r = Bad("non-linear function of an absolute position", where)
                    break
            w.append(r)
        return G(tuple(u), tuple(p), tuple(w), None, deps, any(a.cx for a in args))

    def top_of(self, args):
        if not args:
            return self.top
        d = self._deps(*args)
        u = tuple(poly.ZERO if all(a.u[i] in ('Z', 'L', 'B') or isinstance(a.u[i], Poly) and a.u[i].is_zero() for a in args) else 'T'
                  for i in range(self.nu))
        p = tuple(0 if all(a.p[i] in (0, 'Z', 'L', 'B') for a in args) else 'T' for i in range(self.np_))
        w = tuple(poly.ZERO if all(isinstance(a.w[i], Poly) and a.w[i].is_zero() for a in args) else 'T' for i in range(self.nw))
        return G(u, p, w, None, d)

    def arctan2(self, y, x, where):
        deps = self._deps(y, x)
        u = []
        for a, b in zip(y.u, x.u):
            c = self.c_add(a, b, where, 'arctan2')
            u.append(c if isinstance(c, Bad) or c == 'T' else poly.ZERO)
        p = []
        for a, b in zip(y.p, x.p):
            if isinstance(a, Bad) or isinstance(b, Bad):
                p.append('T')
            elif a in ('T',) or b in ('T',) or isinstance(a, Ang) or isinstance(b, Ang):
                p.append('T')
            else:
                av = 0 if a in ('L', 'B') else a
                bv = 0 if b in ('L', 'B') else b
                if a == 'Z' and b == 'Z':
                    p.append('T')
                elif bv in (0, 'Z') and av in (0, 'Z'):
                    p.append(0 if av == 0 else 'T')
                elif bv in (0,) and av == 1:
                    p.append(1)
                elif bv == 1 and av == 0:
                    p.append(Ang(1))
                else:
                    p.append('T')
        w = tuple(self._w2(a, b) for a, b in zip(self.nl_w(y, where, 'arctan2'), self.nl_w(x, where, 'arctan2')))
        sym = poly.opaque('arctan2', y.sym, x.sym) if y.sym is not None and x.sym is not None else None
        return G(tuple(u), tuple(p), w, sym, deps)

    def minmax(self, args, where, mx=None):
        if poly.ML and mx is not None and all(a.sym is not None for a in args):
            r = args[0]
            for a in args[1:]:
                t = poly.mlval.decide(a.sym, r.sym, where)
                if t is None:
                    return G(r.u, r.p, r.w, None, self._deps(*args))
                if (t > 0) == mx:
                    r = a
            return self.withdeps(r, self._deps(*args))
        r = args[0]
        for a in args[1:]:
            r = self.join(r, a, where)
        p = tuple(x if x in (0, 'Z', 'T', 'L', 'B') or isinstance(x, Bad) else 'T' for x in r.p)
        return G(r.u, p, r.w, None, r.deps)
