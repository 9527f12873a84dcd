"""Laurent polynomials with rational coefficients over named symbols.

Used as *exponents* of scale grades (theta_E**(gamma-1) has grade gamma-1) and as
weights of translation types.  Canonical form, so equality is decidable.
"""
from fractions import Fraction
import hashlib
from . import mlval

MAXTERMS = 24


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        # terms: dict monomial(tuple of (sym, exp)) -> Fraction
        self.t = {m: c for m, c in terms.items() if c != 0}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, Fp):
            return tofp(self) == o
        if isinstance(o, Poly):
            return self.t == o.t
        return NotImplemented

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(n if e == 1 else "%s^%s" % (n, e) for n, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append("%s*%s" % (c, s))
        return " + ".join(out)


# ---------------------------------------------------------------------------------------------
# Random interpretation (Gulwani & Necula): a value is represented by its image under two random
# ring homomorphisms into GF(2^61-1); symbols and uninterpreted functions are mapped by hashing.
# Equal rational expressions always have equal images; different ones collide with negligible probability.
FP = False
ML = False      # multi-level values with derivatives (mlval)
PRIME = (1 << 61) - 1
NEVAL = 2
_TXT = {}
SIGNS = {}      # facts about the strict sign of values (canonical key -> +1 / -1)
_PW = {}


def _hash(*xs):
    d = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(d[:16], 'big') % (PRIME - 2) + 1


class Fp:
    __slots__ = ('v', 'c', 'irr')

    def __init__(self, v, c=None, txt=None, irr=False):
        self.v = v
        self.c = c
        self.irr = irr
        if txt is not None:
            old = _TXT.get(v)
            if old is None or len(txt) < len(old):
                _TXT[v] = txt

    def key(self):
        return self.v

    def __eq__(self, o):
        if isinstance(o, Poly):
            o = tofp(o)
        return isinstance(o, Fp) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def is_const(self):
        return self.c is not None

    def const(self):
        return self.c if self.c is not None else Fraction(0)

    def is_zero(self):
        return self.v == (0,) * NEVAL

    def __repr__(self):
        if self.c is not None:
            return str(self.c)
        return _TXT.get(self.v, '<%x>' % (self.v[0] & 0xffffff))


def _exact(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            return None
        f = Fraction(c).limit_denominator(10 ** 5)
        if f != 0 and abs(float(f) - c) <= 4e-16 * abs(c):
            return f
        return Fraction(repr(c))
    return Fraction(c)


def fconst(c):
    try:
        f = _exact(c)
    except (ValueError, OverflowError, TypeError):
        return None
    if f is None:
        return None
    if f.denominator % PRIME == 0:
        return None
    r = f.numerator % PRIME * pow(f.denominator, PRIME - 2, PRIME) % PRIME
    return Fp((r,) * NEVAL, f, str(f))


def fsym(n):
    return Fp(tuple(_hash('s', n, i) for i in range(NEVAL)), None, n)


def tofp(a):
    if a is None or isinstance(a, Fp):
        return a
    tot = fconst(0)
    for m, c in a.t.items():
        x = fconst(c)
        for n, e in m:
            if e.denominator != 1 if isinstance(e, Fraction) else False:
                return None
            x = _fmul(x, fpow(fsym(n), int(e)))
        tot = _fadd(tot, x, 1)
    return tot


def _cut(t):
    return t if len(t) <= 160 else t[:157] + '...'


def _fadd(a, b, sb):
    c = a.c + sb * b.c if a.c is not None and b.c is not None else None
    if a.is_zero() and sb == 1:
        return b
    if b.is_zero():
        return a
    return Fp(tuple((x + sb * y) % PRIME for x, y in zip(a.v, b.v)), c,
              _cut('%r %s %s' % (a, '+' if sb == 1 else '-', _par(b))) if c is None else str(c), a.irr or b.irr)


def _par(a):
    t = repr(a)
    return '(%s)' % t if (' + ' in t or ' - ' in t) else t


def _fmul(a, b):
    c = a.c * b.c if a.c is not None and b.c is not None else None
    if a.c == 1:
        return b
    if b.c == 1:
        return a
    return Fp(tuple(x * y % PRIME for x, y in zip(a.v, b.v)), c, _cut('%s*%s' % (_par(a), _par(b))) if c is None else str(c), a.irr or b.irr)


def finv(a):
    if any(x == 0 for x in a.v):
        return None
    c = 1 / a.c if a.c else None
    return Fp(tuple(pow(x, PRIME - 2, PRIME) for x in a.v), c, _cut('1/%s' % _par(a)) if c is None else str(c), a.irr)


def fpow(a, n):
    if n < 0:
        a = finv(a)
        n = -n
        if a is None:
            return None
    if a.v in _PW:
        b, e = _PW[a.v]
        e = e * n
        if e.denominator == 1:
            return fpow(b, int(e))
    c = a.c ** n if a.c is not None else None
    return Fp(tuple(pow(x, n, PRIME) for x in a.v), c, _cut('%s^%d' % (_par(a), n)) if c is None else str(c), a.irr)


def _fpower(a, b):
    if b.c is not None:
        if b.c.denominator == 1 and abs(b.c) <= 64:
            return fpow(a, int(b.c))
        if a.v in _PW:
            base, e = _PW[a.v]
            return _fpower(base, fconst(e * b.c))
        if a.c is not None and a.c in (0, 1):
            return a
        r = Fp(tuple(_hash('pow', x, str(b.c), i) for i, x in enumerate(a.v)), None, _cut('%s^(%s)' % (_par(a), b.c)), True)
        _PW[r.v] = (a, b.c)
        return r
    return fopaque('pow', a, b)


def fopaque(name, *args):
    if len(args) == 1 and name in _INV and args[0].v in _OP and _OP[args[0].v][0] == _INV[name]:
        return _OP[args[0].v][1]
    r = Fp(tuple(_hash(name, i, *[x.v[i] for x in args]) for i in range(NEVAL)), None,
           _cut('%s(%s)' % (name, ', '.join(repr(x) for x in args))), True)
    if len(args) == 1:
        _OP[r.v] = (name, args[0])
    return r


def ufunc(name, *args):
    """uninterpreted function without algebraic identities."""
    r = fopaque('U:' + name, *args)
    return Fp(r.v, None, _cut('%s(%s)' % (name, ', '.join(repr(x) for x in args))), any(x.irr for x in args))


def _fp2(a, b):
    return isinstance(a, Fp) or isinstance(b, Fp)


def const(c):
    if ML:
        return mlval.const(c)
    if FP:
        return fconst(c)
    try:
        f = Fraction(c)
    except (ValueError, OverflowError, TypeError):
        return None
    if f.denominator > 10**6:
        f = f.limit_denominator(10**6)
    return Poly({(): f})


def symbol(n):
    if ML:
        return mlval.symbol(n)
    if FP:
        return fsym(n)
    return Poly({((n, 1),): Fraction(1)})


ZERO = const(0)
ONE = const(1)


def add(a, b, sb=1):
    if a is None or b is None:
        return None
    if ML:
        return mlval.add(mlval.lift(a), mlval.lift(b), sb)
    if _fp2(a, b):
        a, b = tofp(a), tofp(b)
        return None if a is None or b is None else _fadd(a, b, sb)
    t = dict(a.t)
    for m, c in b.t.items():
        t[m] = t.get(m, Fraction(0)) + sb * c
    r = Poly(t)
    return r if len(r.t) <= MAXTERMS else None


def sub(a, b):
    return add(a, b, -1)


def _mm(m1, m2):
    d = dict(m1)
    for n, e in m2:
        d[n] = d.get(n, 0) + e
    return tuple(sorted((n, e) for n, e in d.items() if e != 0))


def mul(a, b):
    if a is None or b is None:
        return None
    if ML:
        return mlval.mul(mlval.lift(a), mlval.lift(b))
    if _fp2(a, b):
        a, b = tofp(a), tofp(b)
        return None if a is None or b is None else _fmul(a, b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mm(m1, m2)
            t[m] = t.get(m, Fraction(0)) + c1 * c2
    r = Poly(t)
    return r if len(r.t) <= MAXTERMS else None


def inv(a):
    if a is None or a.is_zero():
        return None
    if ML:
        return mlval.inv(mlval.lift(a))
    if isinstance(a, Fp):
        return finv(a)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        return Poly({tuple((n, -e) for n, e in m): 1 / c})
    # normalise leading coefficient so that 1/(2a+2b) = 1/2 * 1/(a+b)
    items = sorted(a.t.items())
    lead = items[-1][1]
    norm = Poly({m: c / lead for m, c in a.t.items()})
    return mul(Poly({(): 1 / lead}), symbol("1/(%r)" % norm))


def div(a, b):
    if a is None or b is None:
        return None
    if ML:
        return mlval.div(mlval.lift(a), mlval.lift(b))
    if a == b and not a.is_zero():
        return ONE
    return mul(a, inv(b))


def power(a, b):
    if a is None or b is None:
        return None
    if ML:
        return mlval.power(mlval.lift(a), mlval.lift(b))
    if _fp2(a, b):
        a, b = tofp(a), tofp(b)
        return None if a is None or b is None else _fpower(a, b)
    if b.is_const():
        e = b.const()
        if e == 0:
            return ONE
        if e.denominator == 1 and abs(e) <= 6:
            base = a if e > 0 else inv(a)
            r = ONE
            for _ in range(abs(int(e))):
                r = mul(r, base)
            return r
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and m:
                return Poly({tuple((n, x * e) for n, x in m): Fraction(1)})
    # b ** log_b(x) = x
    if a.is_const() and len(b.t) == 1:
        (m, c), = b.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in _OP:
            fn, x = _OP[m[0][0]]
            if fn == {10: 'log10', 2: 'log2'}.get(a.const()):
                return x
    return opaque("pow", a, b)


_OP = {}
_INV = {'exp': 'log', 'log': 'exp', 'expm1': 'log1p', 'log1p': 'expm1'}


def opaque(name, *args):
    if any(x is None for x in args):
        return None
    if ML:
        return mlval.opaque(name, *args)
    if any(isinstance(x, Fp) for x in args):
        args = [tofp(x) for x in args]
        return None if any(x is None for x in args) else fopaque(name, *args)
    if len(args) == 1 and name in _INV and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in _OP and _OP[m[0][0]][0] == _INV[name]:
            return _OP[m[0][0]][1]
    s = "%s(%s)" % (name, ",".join(repr(x) for x in args))
    if len(s) > 400:
        return None
    if len(args) == 1:
        _OP[s] = (name, args[0])
    return symbol(s)


def assume_positive(a):
    """record that the value a is strictly positive."""
    a = tofp(a) if FP and not isinstance(a, Fp) else a
    SIGNS[a.key()] = 1
    SIGNS[sub(const(0), a).key()] = -1
