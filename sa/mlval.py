"""Value-numbering domain with derivatives: random interpretation over a chain of finite fields.

A real-valued expression is represented by its image under a random evaluation homomorphism.  One field cannot
interpret exp/log/powers/angles consistently, so an evaluation uses a chain of primes in which the group that plays
the role of the positive reals (the quadratic residues) or of the unit circle has an order equal to, or divisible by,
another prime of the chain:

    P = 2K+1, K = 2M+1    positive reals of GF(P) ~ (Z/K,+), of GF(K) ~ (Z/M,+)      exp, log, powers
    Q = 2N+1, 120*b'*K = Q+1   positive reals of GF(Q) ~ (Z/N,+), unit circle of GF(Q)[i] > Z/K  angles

Exponents of GF(P) are images in GF(K), logarithms of GF(P) elements are elements of GF(K), angles of the unit circle of
GF(Q)[i] are elements of GF(K).  Hence x**a * x**b = x**(a+b), log(xy) = log x + log y, cos/sin addition theorems,
arctan2, sqrt(x*x) = |x| ... hold exactly.  'Positive' means quadratic residue (-1 is a non-residue in every field).

The value in the *main* field additionally carries the Taylor coefficients up to second order in (x, y), so that
derivatives of a computed quantity are available as canonical values, too.
"""
from fractions import Fraction
import hashlib
import math

CHAINS = [(2146415879, 5), (2147120399, 5), (2146949999, 5)]
TORS = 24
SOFT = 2         # Val.irr: 1 (True) the value is not exact, 2 it depends on a decimal constant of unknown origin
LV = ('M', 'K', 'P', 'N', 'Q')
MAX_INT_POW = 4096


class Chain:
    def __init__(self, k, b):
        self.p = {'M': (k - 1) // 2, 'K': k, 'P': 2 * k + 1, 'Q': TORS * b * k - 1, 'N': (TORS * b * k - 2) // 2}
        self.tors = TORS * b
        self.exp_of = {'K': 'M', 'P': 'K', 'Q': 'N'}
        self._tab = {}
        Q = self.p['Q']
        # generator of the whole unit circle of GF(Q)[i], and of its subgroup of order k
        n = Q + 1
        fs = [2, 3, 5, k]
        t = 2
        while True:
            # (t + i)/(t - i) has norm one
            d = pow(t * t + 1, Q - 2, Q)
            z = ((t * t - 1) * d % Q, 2 * t * d % Q)
            if all(self.cpow(z, n // f) != (1, 0) for f in fs):
                break
            t += 1
        self.g = z
        self.h = self.cpow(z, self.tors)
        self.zeta = self.cpow(z, k)         # order tors
        # orient so that zeta^(tors/4) = i
        if self.cpow(self.zeta, self.tors // 4) != (0, 1):
            self.zeta = (self.zeta[0], (-self.zeta[1]) % Q)
        self.invt = pow(self.tors, k - 2, k)
        P = self.p['P']
        self.gP = 4      # a square, generates the residues (order k prime)

    def cmul(self, a, b):
        Q = self.p['Q']
        return ((a[0] * b[0] - a[1] * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q)

    def cpow(self, a, n):
        if n < 0:
            a = (a[0], (-a[1]) % self.p['Q'])
            n = -n
        r = (1, 0)
        while n:
            if n & 1:
                r = self.cmul(r, a)
            a = self.cmul(a, a)
            n >>= 1
        return r

    def _table(self, which):
        t = self._tab.get(which)
        if t is None:
            step = 1 << 18
            t = {}
            if which == 'P':
                P = self.p['P']
                x = 1
                for i in range(step):
                    t[x] = i
                    x = x * self.gP % P
                giant = pow(pow(self.gP, step, P), P - 2, P)
            else:
                x = (1, 0)
                for i in range(step):
                    t[x] = i
                    x = self.cmul(x, self.h)
                giant = self.cpow(self.h, -step)
            self._tab[which] = t = (t, step, giant)
        return t

    def log_P(self, x):
        """discrete logarithm of a residue of GF(P): element of GF(K)."""
        t, step, g = self._table('P')
        P = self.p['P']
        for j in range(self.p['K'] // step + 2):
            i = t.get(x)
            if i is not None:
                return (j * step + i) % self.p['K']
            x = x * g % P
        return None

    def angle(self, z):
        """angle (element of GF(K)) of a unit-circle element."""
        t, step, g = self._table('Q')
        x = self.cpow(z, self.tors)
        for j in range(self.p['K'] // step + 2):
            i = t.get(x)
            if i is not None:
                return (j * step + i) * self.invt % self.p['K']
            x = self.cmul(x, g)
        return None


_chains = {}


class Run:
    """one random evaluation: chain, seed, main field."""
    def __init__(self, seed, main):
        self.seed = seed
        self.main = main
        kb = CHAINS[seed % len(CHAINS)]
        if kb not in _chains:
            _chains[kb] = Chain(*kb)
        self.ch = _chains[kb]
        self.p = self.ch.p
        self.hints = {}
        self.axes = {}
        self.below_one = set()  # parameters between zero and one
        self.decisions = {}
        self.positive = set()
        self.negative = set()
        self.assume = None      # optional callback(name) -> True (positive) | False (negative) | None
        self.literals = {}      # comparison site -> outcomes in order
        self.bounds = {}        # value -> [lower, upper] implied by the decided comparisons with constants
        self.infeasible = False
        self.weak = False
        self.fallback = False   # interpret functions outside their consistent domain as uninterpreted ones
        self.steps = set()
        self.order = 2          # Taylor order carried through uninterpreted functions
        self.fast = False       # give up (Unavailable) at the first root without an image in the main field
        self.drop = False       # regularisation constants added to a quantity are neglected

    def positive_image(self, lv, n):
        v = self.h(lv, 's', n)
        p = self.p[lv]
        return v if lv in ('M', 'N') or qr(v, p) else p - v

    def image(self, lv, n, positive):
        if n in self.hints:
            return self.hints[n][lv]
        v = self.h(lv, 's', n)
        if positive and lv in ROOTED:
            # 1 + v^2 has a root, too
            p = self.p[lv]
            for k in range(200):
                t = self.h(lv, 's', n, k)
                v = 2 * t * pow(1 - t * t, p - 2, p) % p
                if v and qr(v, p) and (n not in self.below_one or qr((1 - v) % p, p)):
                    return v
        if positive is not None and lv not in ('M', 'N'):
            if qr(v, self.p[lv]) != bool(positive):
                v = self.p[lv] - v
        return v

    def polar(self, x, y, r, x0=None, y0=None, double=False, cores=()):
        """sample the pair (x, y) at a distance from (x0, y0) that has an image in every field; elliptical radii about
        the sampled ellipticities, softened by the given core radii [(name, number of the ellipticity)], have images, too,
        where the fields allow."""
        self.hints.setdefault(x, {})
        self.hints.setdefault(y, {})
        for lv in LV:
            p = self.p[lv]
            z = half = None
            axes = self.axes.get(lv, ()) if lv in ROOTED else ()
            cs = self._softened(lv, axes, cores) if lv in ROOTED and not double else ()
            for k in range(400 if not cs else 6000):
                if k % 16 == 0:
                    q = r(lv) if callable(r) else self.positive_image(lv, r if not k else '%s %d' % (r, k))
                    if cs and not callable(r) and not all(qr((q + L) % p, p) and qr((q * q + L * L) % p, p) for L in cs[0]):
                        q = None
                if q is None:
                    continue
                t = self.h(lv, 'angle of', x, k) if k else self.h(lv, 'angle of', x)
                i = pow(1 + t * t, p - 2, p)
                z = ((1 - t * t) * i % p, 2 * t * i % p)
                if double:
                    if lv in ROOTED and not qr(z[0], p):
                        z = (-z[0] % p, -z[1] % p)
                    half = z
                    z = _cm(z, z, p)
                elif not all(self._elliptical(z, ax, p) for ax in axes):
                    continue
                elif cs and not all(self._core(q, z, ax, L, p) for ax, L in cs[1]):
                    continue
                break
            if q is None:
                q = self.positive_image(lv, r)
                z = z or (1, 0)
            if double and lv in ROOTED:
                self.axes.setdefault(lv, []).append((self._q[lv], half))
            self.hints[x][lv] = (q * z[0] + (self.image(lv, x0, None) if x0 else 0)) % p
            self.hints[y][lv] = (q * z[1] + (self.image(lv, y0, None) if y0 else 0)) % p

    @staticmethod
    def _elliptical(z, ax, p):
        q, (c, s) = ax
        u, v = (c * z[0] + s * z[1]) % p, (c * z[1] - s * z[0]) % p
        q2 = q * q % p
        return qr((q2 * u * u + v * v) % p, p) and qr((u * u + q2 * v * v) % p, p)

    def _softened(self, lv, axes, cores):
        p = self.p[lv]
        flat, ell = [], []
        for n, i in cores:
            L = self.image(lv, n, True)
            if i is None or i >= len(axes):
                flat.append(L)
                continue
            q = axes[i][0]
            w = pow(_root(q, p), p - 2, p) * L % p        # s_scale / sqrt(q)
            ell.append((axes[i], w))
            if n.startswith('w_'):
                ell[-1] = (axes[i], 2 * w * pow(1 + q, p - 2, p) % p)
        return (flat, ell) if cores else ()

    @staticmethod
    def _core(r, z, ax, L, p):
        q, (c, s) = ax
        u, v = r * (c * z[0] + s * z[1]) % p, r * (c * z[1] - s * z[0]) % p
        return qr((q * q * (L * L + u * u) + v * v) % p, p)

    def ellipticity(self, e1, e2):
        """sample (e1, e2) with an axis ratio that has a positive image in every field (with roots of 1 - q^2, 1 + q^2, 1 + q)."""
        self._q = {}

        def c(lv):
            p = self.p[lv]
            q = 0
            for k in range(400):
                t = self.h(lv, 'axis ratio of ' + e1, k) if k else self.h(lv, 'axis ratio of ' + e1)
                q = 2 * t * pow(1 + t * t, p - 2, p) % p
                if lv in ROOTED:
                    if not qr(q, p):
                        q = p - q
                    e = (1 - q) * pow(1 + q, p - 2, p)
                    if not (qr((1 + q * q) * pow(2, p - 2, p) % p, p) and qr(1 + q, p) and qr(1 - q, p)
                            and qr((9999 * pow(10000, p - 2, p) - e) % p, p) and qr((1 - e) % p, p)):
                        continue
                break
            self._q[lv] = q
            return (1 - q) * pow(1 + q, p - 2, p) % p
        self.polar(e1, e2, c, double=True)

    def h(self, lv, *xs):
        d = hashlib.sha256(repr((self.seed, lv) + xs).encode()).digest()
        return int.from_bytes(d[:12], 'big') % (self.p[lv] - 2) + 1


R = None


class Unavailable(BaseException):
    """the evaluation needs a root that this random point does not have."""


def start(seed, main):
    global R
    R = Run(seed, main)
    return R


def qr(x, p):
    return pow(x, (p - 1) // 2, p) == 1


class Val:
    __slots__ = ('j', 's', 'c', 'cpi', 'ang', 'lg', 'irr', 't', 'sg', 'so')

    def __init__(self, j, s, c=None, cpi=None, ang=None, lg=None, irr=False, t=None, sg=None, so=None):
        self.so = so        # (identity, +-1): same / opposite sign as another quantity
        self.sg = sg if c is None else (c > 0) - (c < 0)      # known sign
        self.j = j          # main-field Taylor coefficients: int (constant), 6-tuple, or None (unavailable); coefficient 0 may be None
        self.s = s          # scalars per level (dict), missing = unavailable
        self.c = c
        self.cpi = cpi
        self.ang = ang      # terms of an angle; False = (cos, sin) unavailable
        self.lg = lg
        self.irr = irr
        self.t = t

    def key(self):
        return (self.j, tuple(sorted(self.s.items())))

    def __eq__(self, o):
        if not isinstance(o, Val):
            o = lift(o)
        return isinstance(o, Val) and self.j == o.j and self.s == o.s

    def __hash__(self):
        return hash(self.j)

    def is_const(self):
        return self.c is not None

    def const(self):
        return self.c if self.c is not None else Fraction(0)

    def is_zero(self):
        return self.c == 0 or (self.j == 0 and self.c is None and not any(self.s.values()))

    def __repr__(self):
        if self.c is not None:
            return str(self.c)
        return self.t or '<%s>' % (self.j if not isinstance(self.j, tuple) else '%s..' % (self.j[0],))

    # convenience
    def d(self, i):
        """i-th Taylor coefficient in the main field."""
        if self.j is None:
            return None
        if isinstance(self.j, int):
            return self.j if i == 0 else 0
        return self.j[i]


def small_rational(v, dmax=12, nmax=600):
    """n/d when the value equals it in the main field and in every available level (at least one)."""
    if v.c is not None:
        return v.c
    if v.irr or not isinstance(v.j, int):
        return None
    p = R.p[R.main]
    for d in [*range(1, dmax + 1), 10 ** 5]:
        n = v.j * d % p
        if n > p // 2:
            n -= p
        if abs(n) <= (nmax if d <= dmax else 50 * d):
            lv = [(k, x) for k, x in v.s.items() if k != R.main and x is not None]
            if lv and all((x * d - n) % R.p[k] == 0 for k, x in lv):
                return Fraction(n, d)
            return None
    return None


def _norm(j):
    if j is not None and not isinstance(j, int) and j[0] is not None and not any(j[1:]):
        return j[0]
    return j


def _exact(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            return None
        f = Fraction(c).limit_denominator(10 ** 5)
        if f != 0 and abs(float(f) - c) <= 4e-16 * abs(c):
            return f
        g = Fraction(c).limit_denominator(5000)
        if g != 0 and abs(float(g) - c) <= 4e-15 * max(abs(c), 1) and len(repr(c).strip('-0.').replace('.', '')) >= 15 and abs(c) > 1e-6:
            return g        # rounding error of a folded constant expression
        return Fraction(repr(c))
    return Fraction(c)


def const(c):
    if isinstance(c, complex) and not isinstance(c, (int, float)):
        a, b = const(c.real), const(c.imag)
        return Cx(a, b) if c.imag else a
    if isinstance(c, float) and c and abs(c) < 1e6:
        for mult, name in ((math.pi, 'pi'), (math.pi ** 2, 'pi2')):
            f = Fraction(c / mult).limit_denominator(2000)
            if f and f.numerator < 5000 and abs(float(f) * mult - c) <= 5e-16 * abs(c) and Fraction(repr(c)).denominator > 10 ** 9:
                r = pi()
                if name == 'pi2':
                    r = mul(r, r)
                return mul(const(f), r)
        for f in (Fraction(c * math.pi).limit_denominator(2000),):
            if f and f.numerator < 5000 and abs(float(f) / math.pi - c) <= 5e-16 * abs(c) and Fraction(repr(c)).denominator > 10 ** 9:
                return mul(const(f), inv(pi()))
        s = Fraction(c * c).limit_denominator(1000)
        if Fraction(repr(c)).denominator > 10 ** 9 and s and s.denominator <= 64 and abs(math.sqrt(float(s)) - abs(c)) <= 3e-16 * abs(c):
            r = power(const(s), const(Fraction(1, 2)))
            if r is not None:
                return r if c > 0 else neg(r)
    try:
        f = _exact(c)
    except (ValueError, OverflowError, TypeError):
        return None
    if f is None:
        return None
    irr = False
    if isinstance(c, float) and 0 < abs(1 - c) < 5e-5:
        # 0.99999 as a stand-in for 1: some number such that 1 - q^2 has a root
        s = {}
        for lv in LV:
            p = R.p[lv]
            for k in range(400):
                t = R.h(lv, 'close to one', str(c), k)
                q = (1 - t * t) * pow(1 + t * t, p - 2, p) % p
                if lv not in ROOTED or qr(q, p) and qr((1 - q) % p, p):
                    break
            s[lv] = q
        return Val(s[R.main], s, irr=SOFT, sg=1)
    if isinstance(c, float) and f.denominator > 10 ** 10 and len(repr(c).split('e')[0].replace('.', '').strip('-0')) >= 12:
        for b in range(-16, 17):        # a + b log(2) with multiples of 1/2
            a = round((c - b / 2 * math.log(2)) * 2)
            if b and abs(a) <= 16 and abs(a / 2 + b / 2 * math.log(2) - c) <= 4e-16 * max(abs(c), 1):
                l2 = log(const(2))
                if l2 is not None:
                    return add(const(Fraction(a, 2)), mul(const(Fraction(b, 2)), l2))
        n = math.pi / c
        if abs(n) > 100 and abs(n - round(n)) <= 1e-15 * abs(n) and abs(n) < 1e7:
            return mul(const(Fraction(1, round(n))), pi())
        irr = SOFT          # decimal approximation of some unknown number
        f = Fraction('%.12e' % c)
    s = {}
    for lv in LV:
        p = R.p[lv]
        if f.denominator % p:
            s[lv] = f.numerator % p * pow(f.denominator, p - 2, p) % p
    return Val(s.get(R.main), s, f, irr=irr)


def symbol(n, positive=None, var=None, angle=False):
    """fresh unknown; positive: sampled among the 'positive' numbers; var: 1 for x, 2 for y (differentiation variables)."""
    s = {}
    if positive is None and R.assume is not None:
        positive = R.assume(n)
    for lv in LV:
        s[lv] = R.image(lv, n, positive)
    j = s[R.main]
    if var:
        j = (j,) + tuple(1 if i == var else 0 for i in range(1, 6))
    ang = None
    if angle:
        base = {}
        for lv in ('K', 'P'):
            p = R.p[lv]
            t = R.h(lv, 'angle', n)
            i = pow(1 + t * t, p - 2, p)
            base[lv] = ((1 - t * t) * i % p, 2 * t * i % p)
        base['Q'] = R.ch.cpow(R.ch.h, s['K'])
        ang = ((_Base((n, base)), Fraction(1)),)
    return Val(j, s, t=n, sg=None if positive is None else (1 if positive else -1), ang=ang)


def pi():
    v = symbol('<pi>', True)
    return Val(v.j, v.s, None, Fraction(1), t='pi', sg=1)


def lift(a):
    if a is None or isinstance(a, (Val, Cx)):
        return a
    # polynomials with rational coefficients
    tot = const(0)
    for m, c in a.t.items():
        x = const(c)
        for n, e in m:
            x = mul(x, power(symbol(n), const(e)))
        tot = add(tot, x)
    return tot


# ---- Taylor arithmetic in the main field --------------------------------------------------------
# coefficients: 1, x, y, xx, xy, yy
def _jadd(a, b, sb):
    if a is None or b is None:
        return None
    p = R.p[R.main]
    if isinstance(a, int) and isinstance(b, int):
        return (a + sb * b) % p
    a = (a, 0, 0, 0, 0, 0) if isinstance(a, int) else a
    b = (b, 0, 0, 0, 0, 0) if isinstance(b, int) else b
    if len(a) != len(b):
        a, b = _pad(a), _pad(b)
    h = None if a[0] is None or b[0] is None else (a[0] + sb * b[0]) % p
    return _norm((h,) + tuple((x + sb * y) % p for x, y in zip(a[1:], b[1:])))


def _pad(a):
    return a if len(a) == 10 else a + (0, 0, 0, 0)


def _jmul(a, b):
    if a is None or b is None:
        return None
    p = R.p[R.main]
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if isinstance(a, int):
            return a * b % p
        if b == 0:
            return 0
        return _norm((None if a[0] is None else a[0] * b % p,) + tuple(x * b % p for x in a[1:]))
    if a[0] is None and b[0] is None:
        return None
    if a[0] is None or b[0] is None:
        return None
    if len(a) == 10 or len(b) == 10:
        a0, a1, a2, a3, a4, a5, a6, a7, a8, a9 = _pad(a)
        b0, b1, b2, b3, b4, b5, b6, b7, b8, b9 = _pad(b)
        return _norm((a0 * b0 % p, (a0 * b1 + a1 * b0) % p, (a0 * b2 + a2 * b0) % p,
                      (a0 * b3 + a1 * b1 + a3 * b0) % p,
                      (a0 * b4 + a1 * b2 + a2 * b1 + a4 * b0) % p,
                      (a0 * b5 + a2 * b2 + a5 * b0) % p,
                      (a0 * b6 + a6 * b0) % p,
                      (a0 * b7 + a7 * b0 + a1 * b6 + a6 * b1) % p,
                      (a0 * b8 + a8 * b0 + a2 * b6 + a6 * b2) % p,
                      (a0 * b9 + a9 * b0 + a6 * b6) % p))
    a0, a1, a2, a3, a4, a5 = a
    b0, b1, b2, b3, b4, b5 = b
    return _norm((a0 * b0 % p, (a0 * b1 + a1 * b0) % p, (a0 * b2 + a2 * b0) % p,
                  (a0 * b3 + a1 * b1 + a3 * b0) % p,
                  (a0 * b4 + a1 * b2 + a2 * b1 + a4 * b0) % p,
                  (a0 * b5 + a2 * b2 + a5 * b0) % p))


def _delta(j):
    """nilpotent part."""
    return (0,) + j[1:] if isinstance(j, tuple) else 0


def _series(d, c0, c1, c2):
    """c0 + c1 d + c2 d^2 for nilpotent d; c0 may be None (value unavailable)."""
    p = R.p[R.main]
    if c1 is None or c2 is None:
        return None if d != 0 else c0
    r = _jadd(_jmul(d, c1 % p), _jmul(_jmul(d, d), c2 % p), 1)
    if isinstance(r, int):
        r = (r, 0, 0, 0, 0, 0)
    return _norm((None if c0 is None else (r[0] + c0) % p,) + tuple(r[1:])) if c0 is not None else (None,) + tuple(r[1:])


# ---- ring operations -------------------------------------------------------------------------------
def _sc(a, b, f):
    return {lv: f(a.s[lv], b.s[lv]) % R.p[lv] for lv in LV if lv in a.s and lv in b.s}


def add(a, b, sb=1):
    if a is None or b is None:
        return None
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cx_add(a, b, sb)
    if b.c == 0:
        return a
    if a.c == 0 and sb == 1:
        return b
    if R.drop:
        if b.c is not None and abs(b.c) <= TINY and a.c is None:
            b = _step(b)
        elif a.c and abs(a.c) <= TINY and b.c is None:
            a = _step(a)
    reg = not R.drop and ((b.c is not None and abs(b.c) <= TINY and a.c is None) or (a.c and abs(a.c) <= TINY and b.c is None))
    c = a.c + sb * b.c if a.c is not None and b.c is not None else None
    s = _sc(a, b, lambda x, y: x + sb * y)
    j = _jadd(a.j, b.j, sb)
    cpi = None
    if c is None:
        if a.cpi is not None and b.cpi is not None:
            cpi = a.cpi + sb * b.cpi
        elif a.cpi is not None and b.c == 0:
            cpi = a.cpi
    cis = None
    if cpi is None:
        cis = ang_add(a, b, sb)
    lg = None
    if a.lg is not None and b.lg is not None:
        lg = a.lg + (b.lg if sb == 1 else tuple((u, neg(e)) for u, e in b.lg))
        if len(lg) > 12:
            lg = None
    sg = None
    if a.sg is not None and b.sg is not None and (a.sg == sb * b.sg or a.sg == 0 or b.sg == 0):
        sg = a.sg or sb * b.sg
    return Val(j, s, c, cpi, cis, lg, a.irr | b.irr | bool(reg), sg=sg)


def _step(v):
    """tiny constant c added to a quantity: c times a formal infinitesimal."""
    R.steps.add(abs(v.c))
    s = {lv: 0 for lv in LV}
    return Val((0, 0, 0, 0, 0, 0, v.s[R.main], 0, 0, 0), s, None, sg=v.sg)


def _unstep(a, c):
    """division by a tiny constant: a finite difference becomes the derivative."""
    order = 0
    for st in R.steps:
        for k, e in ((1, st), (2, st * st)):
            if abs(c) / e in (1, 2, 4, Fraction(1, 2), Fraction(1, 4)):
                order = k
    p = R.p[R.main]
    i = pow(const(c).s[R.main], p - 2, p)
    j = a.j
    if order == 0 or j is None:
        return Val(None, {}, irr=True)
    j = (j,) + (0,) * 9 if isinstance(j, int) else _pad(j)
    if order == 1:
        if j[0] is None:
            return Val(None, {}, irr=True)
        if any(j[:6]):
            return Val(None, {}, irr=a.irr, t='<pole>')     # grows without bound as the step vanishes
        o = (j[6], j[7], j[8], None, None, None)
        return Val(tuple(x * i % p if x is not None else 0 for x in o), {R.main: j[6] * i % p}, irr=a.irr)
    if j[0] is None or any(j[:9]):
        return Val(None, {}, irr=True)
    return Val(j[9] * i % p, {R.main: j[9] * i % p}, irr=a.irr)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    r = add(const(0), a, -1)
    if isinstance(r, Val) and r.c is None and isinstance(a, Val):
        if a.sg is not None:
            r.sg = -a.sg
        else:
            x, y = sign_like(a)
            r.so = (x, -y)
    return r


def mul(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cx_mul(a, b)
    if a.c == 1:
        return b
    if b.c == 1:
        return a
    if a.c == 0 or b.c == 0:
        return const(0)
    c = a.c * b.c if a.c is not None and b.c is not None else None
    s = _sc(a, b, lambda x, y: x * y)
    if a.c is not None:
        a, b = b, a
    cpi = cis = lg = None
    if b.c is not None:
        if a.cpi is not None:
            cpi = a.cpi * b.c
        elif a.ang is not None:
            cis = ang_scale(a, b.c)
    elif a.ang is not None or b.ang is not None or a.cpi is not None or b.cpi is not None:
        cis = ang_mixed(a, b)
    if a.lg is not None or b.lg is not None:
        u, e = (a, b) if a.lg is not None else (b, a)
        lg = tuple((x, mul(y, e)) for x, y in u.lg)
    if cpi is not None and cpi == 0:
        cpi = None
    j = _jmul(a.j, b.j)
    sg = a.sg * b.sg if a.sg is not None and b.sg is not None else None
    so = None
    if sg is None:
        if a.sg:
            x, y = sign_like(b)
            so = (x, y * a.sg)
        elif b.sg:
            x, y = sign_like(a)
            so = (x, y * b.sg)
        else:
            (x, y), (z, w) = sign_like(a), sign_like(b)
            if x == z:
                sg = y * w
            else:
                so = (tuple(sorted((x, z), key=repr)), y * w)
    return Val(j, s, c, cpi, cis, lg, a.irr | b.irr, sg=sg, so=so)


def sign_like(v):
    return v.so if v.so is not None else (('v', v.d(0), v.s.get('P'), v.s.get('K')), 1)


def inv(a):
    if a is None:
        return None
    if isinstance(a, Cx):
        n = inv(add(mul(a.re, a.re), mul(a.im, a.im)))
        return Cx(mul(a.re, n), neg(mul(a.im, n)))
    if a.c is not None:
        return const(1 / a.c) if a.c != 0 else None
    s = {lv: pow(v, R.p[lv] - 2, R.p[lv]) for lv, v in a.s.items() if v}
    p = R.p[R.main]
    j = a.j
    if isinstance(j, int):
        j = pow(j, p - 2, p) if j else None
    elif j is not None:
        if not j[0]:
            j = None
        else:
            i0 = pow(j[0], p - 2, p)
            w = _jmul(_delta(j), i0)
            j = _jmul(_series(w, 1, -1, 1), i0)
    # multiples of 1 / pi have no image as an angle
    return Val(j, s, None, None, False if a.cpi is not None else None, None, a.irr, sg=a.sg or None, so=None if a.sg else sign_like(a))


def div(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, Val) and isinstance(b, Val) and a.c is None and a.j is not None and a == b:
        return const(1)
    if R.drop and isinstance(b, Val) and b.c is not None and b.c and abs(b.c) <= TINY and isinstance(a, Val) and a.c is None:
        return _unstep(a, b.c)
    return mul(a, inv(b))


def _exp_img(lv, e):
    """exponent usable in the residue group of field lv."""
    p = R.p[lv]
    if e.c is not None:
        n = (p - 1) // 2
        return e.c.numerator % n * pow(e.c.denominator, -1, n) % n if math.gcd(e.c.denominator, n) == 1 else None
    low = R.ch.exp_of.get(lv)
    return e.s.get(low) if low else None


def power(a, e):
    if a is None or e is None:
        return None
    if isinstance(a, Cx) or isinstance(e, Cx):
        return cx_power(a, e)
    if e.c is not None and e.c.denominator == 1 and abs(e.c) <= MAX_INT_POW:
        n = int(e.c)
        if n == 0:
            return const(1)
        if n < 0:
            return power(inv(a), const(-n))
        r = None
        b = a
        while n:
            if n & 1:
                r = b if r is None else mul(r, b)
            n >>= 1
            if n:
                b = mul(b, b)
        return r
    if a.c is not None and a.c in (0, 1) and (a.c == 1 or e.sg == 1):
        return a
    if a.c is not None and e.c is not None and a.c > 0:
        # perfect powers stay rational
        n, d = a.c.numerator, a.c.denominator
        q = e.c.denominator
        rn, rd = round(n ** (1. / q)), round(d ** (1. / q))
        if q <= 6 and rn ** q == n and rd ** q == d and abs(e.c) < 64:
            return const(Fraction(rn, rd) ** e.c.numerator)
    if a.lg is not None and e.c is None:
        pass
    s = {}
    for lv, v in a.s.items():
        p = R.p[lv]
        x = _exp_img(lv, e)
        if x is not None and v and qr(v, p):
            s[lv] = pow(v, x, p)
    irr = a.irr | e.irr
    if R.fallback and R.main not in s and a.d(0) and e.d(0) is not None and (e.c is None or e.c.denominator > 6):
        # uninterpreted power
        s[R.main] = R.h(R.main, 'pow', a.d(0), e.d(0) if e.c is None else str(e.c))
        irr = True
    if R.fast and R.main not in s and e.c is not None and not R.fallback:
        raise Unavailable()
    j = None
    main = R.main
    p = R.p[main]
    if main in s and a.j is not None and (isinstance(a.j, int) or a.j[0] is not None) and e.j is not None:
        ej = e.j
        if isinstance(ej, tuple):
            la = log(a)
            if la is not None and la.j is not None and (isinstance(la.j, int) or la.j[0] is not None):
                ex = _jmul(_delta(ej), la.j)
                if ex is not None:
                    e0 = ej[0]
                    j = _jmul(_powser(a.j, e0, s[main]), _series(_delta(ex) if isinstance(ex, tuple) else 0, 1, 1, pow(2, p - 2, p)))
        else:
            j = _powser(a.j, ej, s[main])
    return Val(j, s, None, None, None, None, irr, sg=1)


def _powser(aj, e0, v0):
    p = R.p[R.main]
    if isinstance(aj, int) or e0 is None:
        return v0 if isinstance(aj, int) else None
    w = _jmul(_delta(aj), pow(aj[0], p - 2, p))
    return _jmul(_series(w, 1, e0, e0 * (e0 - 1) % p * pow(2, p - 2, p)), v0)


def sign_of(v):
    """+1 / -1 / 0 in the main field, None if unavailable."""
    if isinstance(v, Cx):
        return None
    if v.c is not None:
        return (v.c > 0) - (v.c < 0)
    if v.sg is not None:
        return v.sg
    x = v.d(0)
    if x is None:
        return None
    if x == 0:
        return 0
    return 1 if qr(x, R.p[R.main]) else -1


TINY = Fraction(1, 500)


def decide(u, v, where):
    """sign of u - v on the trace followed by this evaluation (quadratic residues play the positive numbers)."""
    u, v = lift(u), lift(v)
    if u is None or v is None or isinstance(u, Cx) or isinstance(v, Cx):
        return None
    if u.c is not None and v.c is not None:
        return (u.c > v.c) - (u.c < v.c)
    if v.c is not None and abs(v.c) >= 10 ** 4:
        return -1 if v.c > 0 else 1
    if u.c is not None and abs(u.c) >= 10 ** 4:
        return 1 if u.c > 0 else -1
    if v.c is not None and abs(v.c) <= TINY:
        v = const(0)
    if u.c is not None and abs(u.c) <= TINY:
        u = const(0)
    d = sub(u, v)
    s = sign_of(d)
    if s is None:
        return None
    R.literals.setdefault(where, []).append(s)
    if d.sg is None and s <= 0 and v.c == 0 and u.t is None or d.sg is None and s >= 0 and u.c == 0 and v.t is None:
        R.weak = True       # a derived quantity decided to be negative: the trace may be infeasible
    if d.sg is None:
        # interval consistency of the comparisons of one quantity with constants
        for a, b, sg in ((u, v, s), (v, u, -s)):
            if b.c is not None and a.j is not None:
                lo, hi = R.bounds.get(a.key(), (None, None))
                if sg > 0:
                    lo = b.c if lo is None else max(lo, b.c)
                elif sg < 0:
                    hi = b.c if hi is None else min(hi, b.c)
                if a.sg is not None:
                    if a.sg > 0:
                        lo = Fraction(0) if lo is None else max(lo, 0)
                    else:
                        hi = Fraction(0) if hi is None else min(hi, 0)
                if lo is not None and hi is not None and lo >= hi:
                    R.infeasible = True
                R.bounds[a.key()] = (lo, hi)
    return s


def absval(a):
    if isinstance(a, Cx):
        return power(add(mul(a.re, a.re), mul(a.im, a.im)), const(Fraction(1, 2)))
    if a.c is not None:
        return const(abs(a.c))
    if a.sg is not None:
        return a if a.sg >= 0 else neg(a)
    s = {lv: (v if lv in ('M', 'N') or qr(v, R.p[lv]) else (-v) % R.p[lv]) for lv, v in a.s.items()}
    sg = sign_of(a)
    if sg is None:
        return Val(None, s, irr=a.irr, sg=1)
    n = a if sg >= 0 else neg(a)
    s2 = dict(s)
    return Val(n.j, s2, None, n.cpi, n.ang, n.lg, a.irr, sg=1)


def log(a):
    if isinstance(a, Cx):
        return Cx(log(absval(a)), arctan2(a.im, a.re))
    if a.c is not None and a.c == 1:
        return const(0)
    s = {}
    irr = a.irr
    P = R.p['P']
    v = a.s.get('P')
    if v and qr(v, P):
        x = R.ch.log_P(v)
        if x is not None:
            s['K'] = x
    p = R.p[R.main]
    j = None
    if a.j is not None:
        if isinstance(a.j, int):
            j = s.get(R.main)
            if j is None and a.c is not None:
                # logarithm of a constant: an unknown constant
                j = R.h(R.main, 'logc', str(a.c))
                s = dict(s, **{R.main: j})
            elif j is None and R.fallback:
                s = dict(s, **{R.main: R.h(R.main, 'log', a.j)})
                j = s[R.main]
                irr = True
            elif j is None:
                j = (None, 0, 0, 0, 0, 0)
        elif a.j[0]:
            w = _jmul(_delta(a.j), pow(a.j[0], p - 2, p))
            if R.fallback and R.main not in s:
                s = dict(s, **{R.main: R.h(R.main, 'log', a.j[0])})
                irr = True
            j = _series(w, s.get(R.main), 1, -pow(2, p - 2, p))
    return Val(j, s, None, None, None, ((a, const(1)),), irr)


def exp(a):
    if isinstance(a, Cx):
        if a.re.c == 0:
            c, sn = cossin(a.im)
            return Cx(c, sn)
        return cx_mul(exp(a.re), exp(Cx(const(0), a.im)))
    if a.c == 0:
        return const(1)
    if a.lg is not None:
        r = const(1)
        for u, e in a.lg:
            r = mul(r, power(u, e))
        return r
    s = {}
    for lv, low in R.ch.exp_of.items():
        e = a.s.get(low)
        if e is not None:
            p = R.p[lv]
            s[lv] = pow(4, e, p)
    irr = a.irr
    if R.fallback and R.main not in s and a.d(0) is not None:
        pm = R.p[R.main]
        x = a.d(0)
        o = min(x, pm - x)
        h = R.h(R.main, 'exp', o)
        h = h * h % pm
        s[R.main] = h if o == x else pow(h, pm - 2, pm)
        irr = True
    if R.main not in s and 'P' not in s:
        return Val(None, s, irr=irr, sg=1)
    j = None
    p = R.p[R.main]
    if R.main in s and a.j is not None:
        if isinstance(a.j, int):
            j = s[R.main]
        else:
            j = _jmul(_series(_delta(a.j), 1, 1, pow(2, p - 2, p)), s[R.main])
    return Val(j, s, None, None, None, None, irr, sg=1)


# ---- angles -------------------------------------------------------------------------------------------
# an angle is a sum of coefficient * base angle; a base angle knows its (cos, sin) in every field where it exists
def _cm(a, b, p):
    return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)


def _cp(z, n, p):
    if n < 0:
        z, n = (z[0], -z[1] % p), -n
    r = (1, 0)
    while n:
        if n & 1:
            r = _cm(r, z, p)
        z = _cm(z, z, p)
        n >>= 1
    return r


def _half(z, p):
    """half angle with positive cosine."""
    c2 = (1 + z[0]) * pow(2, p - 2, p) % p
    if not c2:
        return (0, 1)
    if not qr(c2, p):
        return None
    c = _root(c2, p)
    return (c, z[1] * pow(2 * c, p - 2, p) % p)


def _root(x, p):
    """the root that is itself a residue (p = 3 mod 4)."""
    return pow(x, (p + 1) // 4, p)


def _scaled(z, r, p):
    den = r.denominator
    while den % 2 == 0:
        z = _half(z, p)
        if z is None:
            return None
        den //= 2
    if den != 1 or abs(r.numerator) > 4096:
        return None
    return _cp(z, r.numerator, p)


ROOTED = ('K', 'P', 'Q')      # fields in which residues have a residue root


def pair(v, lv):
    """(cos v, sin v) in field lv or None."""
    if v.c == 0:
        return (1, 0)
    if lv not in ROOTED:
        return None
    p = R.p[lv]
    if v.ang:
        z = (1, 0)
        for (key, base), r in v.ang:
            b = base.get(lv)
            b = None if b is None else _scaled(b, r, p)
            if b is None:
                return None
            z = _cm(z, b, p)
        return z
    if v.ang is False:
        return None
    if v.cpi is not None:
        return _scaled((0, 1), 2 * v.cpi, p)
    if lv == 'Q' and 'K' in v.s:
        return R.ch.cpow(R.ch.h, v.s['K'])
    return None


def _ang(v):
    """terms of an angle, None if it is a plain number."""
    if v.ang is not None:
        return v.ang
    if v.cpi is not None:
        return ((PIHALF, 2 * v.cpi),)
    if v.c == 0:
        return ()
    return None


class _Base(tuple):
    pass


PIHALF = _Base(('pi/2', {lv: (0, 1) for lv in LV}))


def ang_add(a, b, sb):
    if a.ang is None and b.ang is None:
        if a.cpi is None and b.cpi is None:
            return None
    x, y = _ang(a), _ang(b)
    if x is None or y is None or x is False or y is False:
        # a plain number plus an angle: consistent in Q only if the angle agrees with its image there
        u, v = pair(a, 'Q'), pair(b, 'Q')
        if u is None or v is None:
            return False
        z = _cm(u, v if sb == 1 else (v[0], -v[1] % R.p['Q']), R.p['Q'])
        return ((_Base(('q%d' % z[0], {'Q': z})), Fraction(1)),)
    d = {}
    for t, r in x:
        d[t[0]] = (t, r)
    for t, r in y:
        q = d.get(t[0], (t, 0))[1] + sb * r
        d[t[0]] = (t, q)
    out = tuple(v for k, v in sorted(d.items()) if v[1] != 0)
    return out


def ang_scale(a, r):
    if a.ang is None or a.ang is False:
        return a.ang
    return tuple((t, q * r) for t, q in a.ang)


def ang_mixed(a, b):
    """product with a non-constant factor: representable only through the image in GF(K)."""
    if a.cpi is not None or b.cpi is not None:
        return False
    for u in (a, b):
        if u.ang is not None and (u.ang is False or 'K' not in u.s or pair(u, 'Q') != R.ch.cpow(R.ch.h, u.s['K'])):
            return False
    return None


def cossin(v):
    if v.c == 0:
        return const(1), const(0)
    if v.cpi is not None:
        t = (v.cpi % 2)
        ex = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if t in ex:
            return const(ex[t][0]), const(ex[t][1])
    zs = {lv: pair(v, lv) for lv in ROOTED}
    main = R.main
    irr = v.irr
    p = R.p[main]
    if R.fallback and zs.get(main) is None and v.d(0) is not None:
        # uninterpreted angle on the unit circle of the main field
        x = v.d(0)
        o = min(x, p - x)
        t = R.h(main, 'ang', o)
        i = pow(1 + t * t, p - 2, p)
        zs[main] = ((1 - t * t) * i % p, 2 * t * i % p * (1 if o == x else -1) % p)
        irr = True
    out = []
    for k in (0, 1):
        s = {lv: z[k] for lv, z in zs.items() if z is not None}
        j = None
        z = zs.get(main)
        if z is not None and v.j is not None:
            h = pow(2, p - 2, p)
            d = _delta(v.j) if isinstance(v.j, tuple) else 0
            j = _series(d, z[0], -z[1], -z[0] * h) if k == 0 else _series(d, z[1], z[0], -z[1] * h)
        out.append(Val(j, s, irr=irr))
    return out[0], out[1]


def arctan2(y, x):
    if y.c is not None and x.c is not None:
        if y.c == 0 and x.c >= 0:
            return const(0)
    base = {}
    irr = x.irr | y.irr
    s = {}
    for lv in ROOTED:
        if lv in x.s and lv in y.s:
            p = R.p[lv]
            r2 = (x.s[lv] ** 2 + y.s[lv] ** 2) % p
            if r2 and qr(r2, p):
                i = pow(_root(r2, p), p - 2, p)
                base[lv] = (x.s[lv] * i % p, y.s[lv] * i % p)
    if 'Q' in base:
        a = R.ch.angle(base['Q'])
        if a is not None:
            s['K'] = a
    p = R.p[R.main]
    j = None
    if x.j is not None and y.j is not None and x.d(0) is not None and y.d(0) is not None:
        n = (x.d(0) ** 2 + y.d(0) ** 2) % p
        if n:
            i = pow(n, p - 2, p)
            # w = (x + i y)/(x0 + i y0) - 1
            x0, y0 = x.d(0), y.d(0)
            dx = _delta(x.j) if isinstance(x.j, tuple) else 0
            dy = _delta(y.j) if isinstance(y.j, tuple) else 0
            wr = _jmul(_jadd(_jmul(dx, x0), _jmul(dy, y0), 1), i)
            wi = _jmul(_jadd(_jmul(dy, x0), _jmul(dx, y0), -1), i)
            # Im(w - w^2/2) = wi - wr*wi
            d = _jadd(wi, _jmul(wr, wi), -1)
            d = (0, 0, 0, 0, 0, 0) if isinstance(d, int) else d
            if R.fallback and R.main not in s:
                s[R.main] = R.h(R.main, 'at2', x0 * pow(y0, p - 2, p) % p if y0 else -1, qr(y0, p))
                irr = True
            j = _norm((s.get(R.main),) + tuple(d[1:]))
            if not any(d[1:]) and s.get(R.main) is None:
                j = (None, 0, 0, 0, 0, 0)
    ang = ((_Base((repr(sorted(base.items())), base)), Fraction(1)),) if base else False
    return Val(j, s, None, None, ang, None, irr)


# ---- special functions -----------------------------------------------------------------------------------
def hashed(name, args, irr=False, derivs=None):
    """uninterpreted function; derivs: partial derivatives (functions of args) w.r.t. each argument, first order; second order by chain rule on them."""
    args = [lift(a) for a in args]
    if any(a is None or isinstance(a, Cx) for a in args):
        return None
    s = {}
    for lv in LV:
        if all(lv in a.s for a in args):
            s[lv] = R.h(lv, 'f', name, *[a.s[lv] for a in args])
    for a in args:
        irr |= a.irr
    if all(isinstance(a.j, int) for a in args):
        j = R.h(R.main, 'f', name, *[a.j for a in args])
        s[R.main] = j
        return Val(j, s, None, irr=irr)
    if any(a.j is None or a.d(0) is None for a in args):
        return Val(None, s, irr=irr)
    h0 = R.h(R.main, 'f', name, *[a.d(0) for a in args])
    s[R.main] = h0
    if derivs is None:
        derivs = [lambda *q, i=i: hashed('%s_d%d' % (name, i), q, True) for i in range(len(args))]
        irr = True
    # expand f(a0 + d) to second order: f0 + sum fi di + 1/2 sum fij di dj, fi taken as functions of constant arguments plus symbolic increments
    p = R.p[R.main]
    h = pow(2, p - 2, p)
    base = [Val(a.d(0), dict(a.s, **{R.main: a.d(0)}), a.c) for a in args]
    tot = h0
    act = [i for i, a in enumerate(args) if isinstance(a.j, tuple)]
    order = R.order
    if order == 0:
        return Val(h0, s, irr=irr)
    R.order = order - 1
    try:
        return _expand(args, base, act, derivs, tot, s, irr, order)
    finally:
        R.order = order


def _expand(args, base, act, derivs, tot, s, irr, order):
    p = R.p[R.main]
    h = pow(2, p - 2, p)
    for i in act:
        fi = derivs[i](*base) if derivs[i] is not None else None
        if fi is None or not isinstance(fi.j, int):
            return Val(None, s, irr=irr)
        irr = irr | fi.irr
        di = _delta(args[i].j)
        tot = _jadd(tot, _jmul(di, fi.j), 1)
        for k in act if order > 1 else ():
            # derivative of fi with respect to argument k: evaluate fi with a unit first-order increment
            bumped = list(base)
            b = base[k]
            bumped[k] = Val((b.j, 1, 0, 0, 0, 0), b.s)
            fik = derivs[i](*bumped)
            if fik is None or fik.j is None:
                return Val(None, s, irr=irr)
            irr = irr | fik.irr
            dd = fik.d(1)
            tot = _jadd(tot, _jmul(_jmul(_jmul(di, _delta(args[k].j)), dd), h), 1)
    return Val(tot, s, irr=irr)


def c_(x):
    return const(x)


def half():
    return const(Fraction(1, 2))


def sqrt(a):
    return power(a, half())


def _sp(name, a):
    one = const(1)
    if name == 'erf':
        return hashed('erf', [a], False, [lambda u: mul(div(c_(2), sqrt(pi())), exp(neg(mul(u, u))))])
    if name == 'erfc':
        return sub(one, _sp('erf', a))
    if name in ('j0', 'i0', 'k0'):
        nm = {'j0': 'j1', 'i0': 'i1', 'k0': 'k1'}[name]
        sg = 1 if name == 'i0' else -1
        return hashed(name, [a], False, [lambda u: mul(c_(sg), _sp(nm, u))])
    if name == 'j1':
        return hashed(name, [a], False, [lambda u: sub(_sp('j0', u), div(_sp('j1', u), u))])
    if name == 'i1':
        return hashed(name, [a], False, [lambda u: sub(_sp('i0', u), div(_sp('i1', u), u))])
    if name == 'k1':
        return hashed(name, [a], False, [lambda u: sub(neg(_sp('k0', u)), div(_sp('k1', u), u))])
    if name == 'exp1':
        return hashed(name, [a], False, [lambda u: neg(div(exp(neg(u)), u))])
    if name == 'expi':
        return hashed(name, [a], False, [lambda u: div(exp(u), u)])
    return None


COMPLETE = {'gamma', 'floor', 'ceil', 'round', 'rint', 'trunc'}


def opaque(name, *args):
    args = [lift(a) for a in args]
    if any(a is None for a in args):
        return None
    a = args[0]
    if any(isinstance(x, Cx) for x in args):
        if len(args) == 1:
            if name == 'abs':
                return absval(a)
            if name == 'exp':
                return exp(a)
            if name == 'log':
                return log(a)
            if name == 'angle':
                return arctan2(a.im, a.re)
        if name == 'hyp2f1' and len(args) == 4:
            return hyp_one(*args)
        if name == 'wofz':
            return wofz(a)
        return None
    one = const(1)
    two = const(2)
    if len(args) == 1:
        if name == 'angle':
            return const(0) if (sign_of(a) or 0) > 0 else pi()
        if name in ('abs', 'absolute', 'fabs'):
            return absval(a)
        if name == 'sign':
            g = sign_of(a)
            return None if g is None else const(g)
        if name == 'log':
            return log(a)
        if name == 'log1p':
            return log(add(one, a))
        if name == 'log10':
            return div(log(a), log(const(10)))
        if name == 'log2':
            return div(log(a), log(two))
        if name == 'exp':
            return exp(a)
        if name == 'expm1':
            return sub(exp(a), one)
        if name == 'exp2':
            return power(two, a)
        if name == 'cbrt':
            return power(a, const(Fraction(1, 3)))
        if name in ('sin', 'cos', 'tan'):
            c, s = cossin(a)
            return {'sin': s, 'cos': c, 'tan': None}[name] if name != 'tan' else div(s, c)
        if name in ('sinh', 'cosh', 'tanh'):
            p, m = exp(a), exp(neg(a))
            if name == 'sinh':
                return div(sub(p, m), two)
            if name == 'cosh':
                return div(add(p, m), two)
            return div(sub(p, m), add(p, m))
        if name == 'arctan':
            return arctan2(a, one)
        if name == 'arcsin':
            return arctan2(a, sqrt(sub(one, mul(a, a))))
        if name == 'arccos':
            return arctan2(sqrt(sub(one, mul(a, a))), a)
        if name == 'arctanh':
            return mul(half(), sub(log(add(one, a)), log(sub(one, a)))) if _pos(add(one, a)) and _pos(sub(one, a)) else mul(half(), log(div(add(one, a), sub(one, a))))
        if name == 'arcsinh':
            return log(add(a, sqrt(add(mul(a, a), one))))
        if name == 'arccosh':
            return log(add(a, sqrt(sub(mul(a, a), one))))
        if name in ('deg2rad', 'radians'):
            return div(mul(a, pi()), const(180))
        if name in ('rad2deg', 'degrees'):
            return div(mul(a, const(180)), pi())
        if name in ('isnan', 'isinf'):
            return const(0)
        r = _sp(name, a)
        if r is not None:
            return r
    if name == 'arctan2':
        return arctan2(*args)
    if name == 'hyp2f1' and len(args) == 4:
        A, B, C, Z = args
        if A.c == 1 or B.c == 1:
            r = hyp_one(A, B, C, Z)
            if r is not None:
                return r
        if all(isinstance(q.j, int) for q in (A, B, C)):
            if A.key() > B.key():
                A, B = B, A
            return hashed('hyp2f1', [A, B, C, Z], True, [None, None, None, lambda a, b, c, z: mul(div(mul(a, b), c), opaque('hyp2f1', add(a, c_(1)), add(b, c_(1)), add(c, c_(1)), z))])
    if name == 'gammainc' and len(args) == 2:
        return hashed('gammainc', args, True, [None, lambda a, x: div(mul(power(x, sub(a, c_(1))), exp(neg(x))), opaque('gamma', a))])
    if name == 'gammaincc' and len(args) == 2:
        return sub(one, opaque('gammainc', *args))
    return hashed(name, args, True)


def _const_part(v):
    return Val(v.d(0), dict(v.s, **{R.main: v.d(0)}), v.c, irr=v.irr)


def _analytic(key, z, f1, f2):
    """complex analytic function with F(conj(-z)) = conj(F(z)) (mirror) given by its value at a point; f1, f2: first and second derivative from z and F."""
    zr, zi = _parts(z)
    if zr.d(0) is None or zi.d(0) is None:
        return None
    p = R.p[R.main]
    r0, i0 = zr.d(0), zi.d(0)
    flip = bool(r0) and not qr(r0, p)
    k = key + ((-r0) % p if flip else r0, i0)
    fr = Val(R.h(R.main, 're', *k), {R.main: R.h(R.main, 're', *k)})
    fi = Val(R.h(R.main, 'im', *k), {R.main: R.h(R.main, 'im', *k)})
    if flip:
        fi = neg(fi)
    F = mkcx(fr, fi)
    z0 = mkcx(_const_part(zr), _const_part(zi))
    F1 = f1(z0, F)
    F2 = f2(z0, F, F1)
    d = sub(z, z0)
    out = add(F, add(mul(F1, d), mul(mul(half(), F2), mul(d, d))))
    if zr.irr | zi.irr:
        for q in _parts(out):
            q.irr |= zr.irr | zi.irr
    return out


def wofz(z):
    """Faddeeva function: w' = -2 z w + 2i/sqrt(pi)."""
    c = Cx(const(0), div(const(2), sqrt(pi())))
    m2 = const(-2)
    return _analytic(('wofz',), z, lambda u, F: add(mul(mul(m2, u), F), c), lambda u, F, F1: mul(m2, add(F, mul(u, F1))))


def hyp_one(a, b, c, z):
    """F(1, b; c; z), real b and c: the solution of z(1-z)F' = (c-1) - (c-1)F + b z F."""
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(c, Cx):
        return None
    if a.c != 1:
        a, b = b, a
    if a.c != 1 or not isinstance(b.j, int) or not isinstance(c.j, int):
        return None
    zr, zi = _parts(z)
    if zr.d(0) is None or zi.d(0) is None:
        return None
    p = R.p[R.main]
    r0, i0 = zr.d(0), zi.d(0)
    flip = bool(i0) and not qr(i0, p)
    key = ('hyp1', b.j, c.j, r0, (-i0) % p if flip else i0)
    fr = Val(R.h(R.main, 're', *key), {R.main: R.h(R.main, 're', *key)})
    fi = Val(R.h(R.main, 'im', *key), {R.main: R.h(R.main, 'im', *key)})
    irr = b.irr | c.irr | zr.irr | zi.irr
    if flip:
        fi = neg(fi)
    F = mkcx(fr, fi) if i0 else fr
    z0 = mkcx(_const_part(zr), _const_part(zi))
    one = const(1)
    c1 = sub(c, one)
    den = inv(mul(z0, sub(one, z0)))
    F1 = mul(add(sub(c1, mul(c1, F)), mul(mul(b, z0), F)), den)
    # derivative of the equation: z(1-z)F'' + (1-2z)F' = -(c-1)F' + bF + b z F'
    F2 = mul(sub(add(mul(b, F), mul(sub(mul(b, z0), c1), F1)), mul(sub(one, mul(const(2), z0)), F1)), den)
    d = sub(z, z0)
    out = add(F, add(mul(F1, d), mul(mul(half(), F2), mul(d, d))))
    if irr:
        for q in _parts(out):
            q.irr |= irr
    return out


def _pos(v):
    return 'P' in v.s and v.s['P'] and qr(v.s['P'], R.p['P'])


# ---- complex numbers ---------------------------------------------------------------------------------------
class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    irr = property(lambda self: self.re.irr | self.im.irr)

    def key(self):
        return (self.re.key(), self.im.key())

    def __eq__(self, o):
        o = lift(o) if not isinstance(o, (Val, Cx)) else o
        if isinstance(o, Val):
            return self.im.is_zero() and self.re == o
        return isinstance(o, Cx) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash(self.re.j)

    def is_const(self):
        return False

    def const(self):
        return Fraction(0)

    def is_zero(self):
        return self.re.is_zero() and self.im.is_zero()

    def __repr__(self):
        return '(%r + i %r)' % (self.re, self.im)


def _parts(a):
    return (a.re, a.im) if isinstance(a, Cx) else (a, const(0))


def mkcx(re, im):
    if re is None or im is None:
        return None
    return re if im.c == 0 else Cx(re, im)


def cx_add(a, b, sb):
    (ar, ai), (br, bi) = _parts(a), _parts(b)
    return mkcx(add(ar, br, sb), add(ai, bi, sb))


def cx_mul(a, b):
    (ar, ai), (br, bi) = _parts(a), _parts(b)
    return mkcx(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))


def cx_power(a, e):
    if isinstance(e, Val) and e.c is not None and e.c.denominator == 1 and abs(e.c) <= 64:
        n = int(e.c)
        if n < 0:
            a, n = inv(a), -n
        r = const(1)
        for _ in range(n):
            r = mul(r, a)
        return r
    if isinstance(e, Val) and isinstance(a, Cx):
        m = power(absval(a), e)
        c, s = cossin(mul(e, arctan2(a.im, a.re)))
        return mkcx(mul(m, c), mul(m, s))
    return None


def conj(a):
    return Cx(a.re, neg(a.im)) if isinstance(a, Cx) else a


def real(a):
    return a.re if isinstance(a, Cx) else a


def imag(a):
    return a.im if isinstance(a, Cx) else const(0)
