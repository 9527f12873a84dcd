"""Arrays of known shape with tracked elements: interpreter subclass in which every numpy array is a view (index list + shape) on a heap buffer."""
import ast
import itertools
import math
from fractions import Fraction
from .engine import Interp, Bottom, Frame
from .values import *
from . import poly
from .npmodel import NP, UNARY, strip, VIEW

LIMIT = 60000
SETTINGS = {'lenstronomy.Conf.config_loader', 'lenstronomy.Util.numba_util', 'lenstronomy.Util.package_util'}


class Unsupported(Exception):
    """outside the modelled subset; the obligation stays undecided."""


class ND(V):
    __slots__ = ('ref', 'idx', 'shape')

    def __init__(self, ref, idx, shape):
        self.ref = ref
        self.idx = idx
        self.shape = tuple(shape)

    def __repr__(self):
        return 'ND%r' % (self.shape,)


class Spec(V):
    """Fourier transform of a real array (kept as the array)."""
    __slots__ = ('nd',)

    def __init__(self, nd):
        self.nd = nd


def size(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def strides(sh):
    out, n = [], 1
    for s in reversed(sh):
        out.append(n)
        n *= s
    return out[::-1]


def bshape(*shs):
    n = max(len(s) for s in shs)
    out = []
    for i in range(n):
        d = 1
        for s in shs:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise Bottom('shapes %r not broadcastable' % (shs,))
                d = s[j]
        out.append(d)
    return tuple(out)


def bidx(sh, out):
    """positions in an array of shape sh for every element of the broadcast shape."""
    if sh == out:
        return range(size(out))
    st = strides(sh)
    off = len(out) - len(sh)
    axes = []
    for i, d in enumerate(out):
        j = i - off
        s = 0 if j < 0 or sh[j] == 1 else st[j]
        axes.append([k * s for k in range(d)])
    return [sum(t) for t in itertools.product(*axes)]


def newshape(sh, n):
    sh = list(sh)
    if -1 in sh:
        k = 1
        for s in sh:
            k *= s if s != -1 else 1
        if k == 0 or n % k:
            raise Bottom('reshape')
        sh[sh.index(-1)] = n // k
    if size(sh) != n:
        raise Bottom('cannot reshape %d into %r' % (n, sh))
    return tuple(sh)


class NDInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.np = NDNP(self)
        self.approx = {}        # id(value) -> (value, number) of square roots of whole numbers

    # ---- storage
    def nd(self, S, flat, shape):
        flat = list(flat)
        if len(flat) > LIMIT:
            raise Unsupported('large array')
        assert len(flat) == size(shape), (len(flat), shape)
        r = self.alloc(S, HObj('list', tuple(flat)))
        return ND(r, tuple(range(len(flat))), shape)

    def el(self, a, S):
        b = self.hget(S, a.ref).items
        return [b[i] for i in a.idx]

    def put(self, a, vals, S):
        h = self.hget(S, a.ref)
        b = list(h.items)
        for i, v in zip(a.idx, vals):
            b[i] = v
        self.hset(S, a.ref, h.rep(items=tuple(b)))

    def arr(self, v, S, depth=0):
        """any array-like as ND (scalars: shape ())."""
        if isinstance(v, ND):
            return v
        if isinstance(v, Tup) or isinstance(v, Ref) and self.hget(S, v).kind == 'list':
            items, summ = self.iterate(v, S, None)
            if items is None:
                raise Unsupported('unknown sequence')
            ps = [self.arr(x, S, depth + 1) for x in items]
            if not ps:
                return self.nd(S, [], (0,))
            sh = ps[0].shape
            if any(p.shape != sh for p in ps):
                if any(isinstance(x, (ND, Tup)) for x in items):
                    raise Unsupported('ragged array')
                raise Bottom('ragged')
            return self.nd(S, [x for p in ps for x in self.el(p, S)], (len(ps),) + sh)
        if isinstance(v, Num) and v.kind == 'a':
            raise Unsupported('array of unknown shape')
        if isinstance(v, (Num, Const)):
            return self.nd(S, [v], ())
        if isinstance(v, ExtObj) and v.path == 'nd.range':
            return v.args[0]
        raise Unsupported('array of %r' % (v,))

    def scal(self, a, S):
        return self.el(a, S)[0] if isinstance(a, ND) and a.shape == () else a

    def map(self, f, S, *vs):
        """broadcast elementwise map; scalars stay scalars."""
        if not any(isinstance(v, (ND, Tup, Ref)) for v in vs):
            return f(*vs)
        ps = [self.arr(v, S) for v in vs]
        sh = bshape(*[p.shape for p in ps])
        cols = []
        for p in ps:
            e = self.el(p, S)
            cols.append([e[i] for i in bidx(p.shape, sh)])
        out = [f(*t) for t in zip(*cols)]
        return out[0] if sh == () else self.nd(S, out, sh)

    # ---- hooks of the interpreter
    def settings(self):
        """reading the configuration files: the branch taken is not known and does not matter here."""
        return any(f.mod.name in SETTINGS for f in self.frames) or (len(self.frames) == 1 and self.importing)

    def s_Try(self, st, S):
        """values are exact here: a body that runs to its end (or returns) raised nothing."""
        if self.settings() or self.importing:
            return super().s_Try(st, S)
        S0 = S.copy()
        fr = self.frames[-1]
        n = len(fr.rets)
        try:
            R = self.exec_block(st.body, S)
            ended = R is None and len(fr.rets) == n and not any(isinstance(x, (ast.Break, ast.Continue)) for b in st.body for x in ast.walk(b))
        except Bottom:
            ended = True
        if ended:
            if len(st.body) > 1 or not st.handlers or len(st.handlers) > 1:
                raise Unsupported('handled exception at %s' % self.where(st))
            h = st.handlers[0]
            if h.name:
                S0.env[h.name] = TOP
            R = self.exec_block(h.body, S0)
        elif R is not None and st.orelse:
            R = self.exec_block(st.orelse, R)
        if st.finalbody:
            if R is None:
                raise Unsupported('finally at %s' % self.where(st))
            R = self.exec_block(st.finalbody, R)
        return R

    importing = 0

    def load(self, name):
        self.importing += 1
        try:
            return super().load(name)
        finally:
            self.importing -= 1

    def join_state(self, A, B, node=None):
        if A is None or B is None or A is B or self.settings():
            return super().join_state(A, B, node)
        raise Unsupported('undecided branch at %s' % self.where(node))

    def join(self, a, b, S, node=None):
        if self.same(a, b):
            return a
        if self.settings():
            return super().join(a, b, S, node)
        raise Unsupported('join at %s' % self.where(node))

    def is_numlike(self, v, S=None):
        return isinstance(v, ND) or super().is_numlike(v, S)

    def same(self, a, b):
        if isinstance(a, ND) and isinstance(b, ND):
            return a.ref.id == b.ref.id and a.idx == b.idx and a.shape == b.shape
        return super().same(a, b)

    def pay(self, v, S):
        if isinstance(v, ND):
            if len(v.idx) == 1:
                return self.pay(self.el(v, S)[0], S)
            raise Unsupported('payload of an array at %s' % self.where())
        return super().pay(v, S)

    def deps(self, v, S, seen=None, depth=0):
        return EMPTY

    def truth(self, v, S):
        if isinstance(v, ND):
            if len(v.idx) == 1:
                return self.truth(self.el(v, S)[0], S)
            if not v.idx:
                return False
            f = self.frames[-1]
            raise Bottom('truth of an array in %s' % (getattr(f.func, 'name', None) or f.mod.name))
        t = super().truth(v, S)
        if t is None and isinstance(v, Num):
            sym = v.pay.sym
            if sym is not None:
                return self.truth(self.compare(ast.NotEq(), v, Const(0), S, None), S)
        if t is None and isinstance(v, Ref):
            h = self.hget(S, v)
            if h.kind == 'dict':
                return bool(h.items) if h.summ is None else None
        return t

    def iterate(self, v, S, node):
        if isinstance(v, ND):
            if v.shape == ():
                raise Bottom('iteration over a scalar')
            return [self.getitem(v, Const(i), S, node) for i in range(v.shape[0])], None
        return super().iterate(v, S, node)

    def getattr(self, o, a, S, node):
        if isinstance(o, Spec):
            if a == 'ndim':
                return Const(len(o.nd.shape))
            raise Unsupported('attribute of a spectrum')
        if isinstance(o, ND):
            if a == 'shape':
                return Tup([Const(n) for n in o.shape])
            if a == 'size':
                return Const(len(o.idx))
            if a == 'ndim':
                return Const(len(o.shape))
            if a == 'T':
                return self.np.transpose(o, None)
            if a == 'flat':
                return ND(o.ref, o.idx, (len(o.idx),))
            if a == 'dtype':
                return ExtV('numpy.float64')
            if a in ('real', 'imag'):
                return self.map(lambda x: x if a == 'real' else Const(0), S, o) if not any(
                    isinstance(x, Num) and x.pay.cx for x in self.el(o, S)) else self.map(lambda x: self.np.num_attr(x, a, S, node), S, o)
            return ExtMeth(o, a)
        return super().getattr(o, a, S, node)

    def const_int(self, v, S):
        v = self.scal(v, S)
        if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool) and v.v == int(v.v):
            return int(v.v)
        if isinstance(v, Num) and isinstance(v.pay.sym, poly.mlval.Val) and v.pay.sym.c is not None and v.pay.sym.c.denominator == 1:
            return int(v.pay.sym.c)
        return None

    def slice_known(self, k):
        if isinstance(k, ExtObj) and k.path == 'slice':
            out = []
            for x in k.args:
                if isinstance(x, Const) and x.v is None:
                    out.append(None)
                else:
                    i = x.v if isinstance(x, Const) and isinstance(x.v, int) else None
                    if i is None and isinstance(x, Num) and isinstance(x.pay.sym, poly.mlval.Val) and x.pay.sym.c is not None and x.pay.sym.c.denominator == 1:
                        i = int(x.pay.sym.c)
                    if i is None and isinstance(x, Const) and isinstance(x.v, float):
                        raise Bottom('slice indices must be integers')
                    if i is None:
                        raise Unsupported('slice with unknown bound %r' % (x,))
                    out.append(i)
            return slice(*out)
        return None

    def select(self, o, k, S):
        """-> positions (into o.idx), shape; shape None for a single element; and whether it is a view."""
        ks = list(k.items) if isinstance(k, Tup) and not k.arr else [k]
        ks = [self.scal(x, S) for x in ks]
        conv = []
        for x in ks:
            if isinstance(x, Const) and x.v is Ellipsis:
                conv.append(('...', None))
            elif isinstance(x, Const) and x.v is None:
                conv.append(('new', None))
            elif isinstance(x, ExtObj) and x.path == 'slice':
                conv.append(('slice', self.slice_known(x)))
            elif isinstance(x, Const) and isinstance(x.v, bool):
                raise Unsupported('boolean scalar index')
            elif isinstance(x, (ND, Tup, Ref)):
                a = self.arr(x, S)
                e = self.el(a, S)
                if e and all(isinstance(y, Const) and isinstance(y.v, bool) for y in e):
                    conv.append(('mask', (a.shape, [y.v for y in e])))
                else:
                    iv = [self.const_int(y, S) for y in e]
                    if None in iv:
                        raise Unsupported('unknown index array')
                    conv.append(('arr', (a.shape, iv)))
            else:
                i = self.const_int(x, S)
                if i is None:
                    raise Unsupported('unknown index %r' % (x,))
                conv.append(('int', i))
        used = sum(len(v[0]) if t == 'mask' else 0 if t in ('new', '...') else 1 for t, v in conv)
        nd = len(o.shape)
        if used > nd:
            raise Bottom('too many indices')
        if not any(t == '...' for t, v in conv):
            conv.append(('...', None))
        out = []
        for t, v in conv:
            if t == '...':
                out += [('slice', slice(None))] * (nd - used)
            else:
                out.append((t, v))
        st = strides(o.shape)
        ax = 0
        # each entry: ('basic', offsets, keepdim) or ('adv', shape, offsets)
        parts = []
        for t, v in out:
            if t == 'new':
                parts.append(('b', [0], True))
                continue
            if t == 'mask':
                sh, m = v
                if o.shape[ax:ax + len(sh)] != sh:
                    raise Bottom('boolean index shape')
                ss = strides(sh)
                pos = [i for i, x in enumerate(m) if x]
                offs = []
                for i in pos:
                    r, q = i, 0
                    for d in range(len(sh)):
                        q += r // ss[d] * st[ax + d]
                        r %= ss[d]
                    offs.append(q)
                parts.append(('a', (len(pos),), offs))
                ax += len(sh)
                continue
            n = o.shape[ax]
            if t == 'slice':
                parts.append(('b', [i * st[ax] for i in range(*v.indices(n))], True))
            elif t == 'int':
                if not -n <= v < n:
                    raise Bottom('index out of range')
                parts.append(('b', [v % n * st[ax]], False))
            else:
                sh, iv = v
                if any(not -n <= i < n for i in iv):
                    raise Bottom('index out of range')
                parts.append(('a', sh, [i % n * st[ax] for i in iv]))
            ax += 1
        advs = [i for i, p in enumerate(parts) if p[0] == 'a']
        if not advs:
            sh = [len(p[1]) for p in parts if p[2]]
            pos = [sum(t) for t in itertools.product(*[p[1] for p in parts])]
            if not sh and all(t in ('int',) for t, v in out) and not any(t == '...' for t, v in conv[:-1]):
                return pos, None, True
            return pos, tuple(sh), True
        # advanced: integers join the broadcast
        ashape = bshape(*[parts[i][1] for i in advs])
        comb = [0] * size(ashape)
        for i in advs:
            for j, b in enumerate(bidx(parts[i][1], ashape)):
                comb[j] += parts[i][2][b]
        ints = [i for i, p in enumerate(parts) if p[0] == 'b' and not p[2] and out[i][0] == 'int']
        grp = sorted(advs + ints)
        contiguous = grp == list(range(grp[0], grp[-1] + 1))
        first = grp[0] if contiguous else 0
        axes, shp = [], []
        done = False
        rest = [i for i in range(len(parts)) if i not in advs]
        order = []
        for i in range(len(parts)):
            if i == first and not done:
                order.append('adv')
                done = True
            if i in advs:
                continue
            order.append(i)
        if not done:
            order.insert(0, 'adv')
        if not contiguous:
            order = ['adv'] + [i for i in order if i != 'adv']
        for i in order:
            if i == 'adv':
                axes.append(comb)
                shp += list(ashape)
            else:
                axes.append(parts[i][1])
                if parts[i][2]:
                    shp.append(len(parts[i][1]))
        return [sum(t) for t in itertools.product(*axes)], tuple(shp), False

    def getitem(self, o, k, S, node):
        if isinstance(o, ND):
            pos, sh, view = self.select(o, k, S)
            if sh is None:
                return self.hget(S, o.ref).items[o.idx[pos[0]]]
            if view:
                return ND(o.ref, tuple(o.idx[i] for i in pos), sh)
            b = self.hget(S, o.ref).items
            return self.nd(S, [b[o.idx[i]] for i in pos], sh)
        if isinstance(o, (Tup, Ref)) and not (isinstance(k, ExtObj)) and not (isinstance(k, Const)):
            if isinstance(k, (Num, ND)):
                i = self.const_int(k, S)
                if i is not None:
                    return super().getitem(o, Const(i), S, node)
        return super().getitem(o, k, S, node)

    def setitem(self, o, k, v, S, node, aug=False, weak=False):
        if isinstance(o, ND):
            pos, sh, view = self.select(o, k, S)
            tgt = ND(o.ref, tuple(o.idx[i] for i in pos), sh or ())
            a = self.arr(v, S)
            if size(a.shape) == 1 and len(a.shape) > len(tgt.shape):
                a = ND(a.ref, a.idx, ())
            if len(a.shape) > len(tgt.shape) and a.shape[:len(a.shape) - len(tgt.shape)] == (1,) * (len(a.shape) - len(tgt.shape)):
                a = ND(a.ref, a.idx, a.shape[len(a.shape) - len(tgt.shape):])
            if bshape(a.shape, tgt.shape) != tgt.shape:
                raise Bottom('cannot broadcast %r into %r' % (a.shape, tgt.shape))
            e = self.el(a, S)
            self.put(tgt, [e[i] for i in bidx(a.shape, tgt.shape)], S)
            return
        if isinstance(o, Ref) and isinstance(k, (Num, ND)):
            i = self.const_int(k, S)
            if i is None:
                raise Unsupported('unknown key')
            k = Const(i)
        if isinstance(o, (Num, Top)):
            raise Unsupported('store into untracked array')
        super().setitem(o, k, v, S, node, aug, weak)

    def del_item(self, o, k, S, node):
        if isinstance(o, ND):
            raise Bottom('del of array item')
        return super().del_item(o, k, S, node)

    def aug_inplace(self, cur, op, r, S, node):
        if isinstance(cur, ND):
            v = self.binop(op, cur, r, S, node)
            w = self.arr(v, S)
            if w.shape != cur.shape:
                raise Bottom('in-place broadcast')
            self.put(cur, self.el(w, S), S)
            return cur
        return super().aug_inplace(cur, op, r, S, node)

    def seq(self, v, S):
        return isinstance(v, Tup) or isinstance(v, Ref) and self.hget(S, v).kind == 'list'

    def binop(self, op, a, b, S, node):
        if isinstance(a, Spec) or isinstance(b, Spec):
            if isinstance(a, Spec) and isinstance(b, Spec):
                if isinstance(op, ast.Mult):
                    return Spec(self.np.circular(a.nd, b.nd, S, node))
                if isinstance(op, (ast.Add, ast.Sub)):
                    return Spec(self.binop(op, a.nd, b.nd, S, node))
            elif isinstance(op, ast.Mult) or isinstance(op, ast.Div) and isinstance(a, Spec):
                x, y = (a.nd if isinstance(a, Spec) else a), (b.nd if isinstance(b, Spec) else b)
                if not (isinstance(a, ND) or isinstance(b, ND)):
                    return Spec(self.binop(op, x, y, S, node))
            raise Unsupported('arithmetic on spectra')
        if isinstance(a, ND) or isinstance(b, ND):
            for x in (a, b):
                if isinstance(x, Const) and x.v is None:
                    raise Bottom('arithmetic on None')
                if isinstance(x, Top):
                    raise Unsupported('unknown operand at %s' % self.where(node))
            if isinstance(op, ast.MatMult):
                return self.np.dot(a, b, S, node, True)
            return self.map(lambda x, y: self.binop(op, x, y, S, node), S, a, b)
        if isinstance(op, ast.FloorDiv) or isinstance(op, ast.Mod) and not (isinstance(a, Const) and isinstance(a.v, str)):
            x, y = self.const_num(a), self.const_num(b)
            if x is not None and y is not None and y != 0:
                r = x // y if isinstance(op, ast.FloorDiv) else x % y
                return Const(int(r) if r == int(r) else float(r))
        r = super().binop(op, a, b, S, node)
        if self.approx and isinstance(r, Num) and (id(a) in self.approx or id(b) in self.approx):
            x, y = self.near(a), self.near(b)
            f = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y, ast.Pow: lambda: x ** y}.get(type(op))
            if x is not None and y is not None and f and not (isinstance(op, ast.Div) and y == 0) and not (isinstance(op, ast.Pow) and x <= 0):
                self.approx[id(r)] = (r, f())
        if isinstance(op, (ast.Add, ast.Sub)) and isinstance(r, Const) and isinstance(r.v, float) and r.v and isinstance(a, Const) and isinstance(b, Const) \
                and abs(r.v) <= 4e-16 * max(abs(a.v), abs(b.v)):
            r = Const(0.)       # rounding error of a folded constant expression
        if isinstance(r, Tup) and r.arr:
            r = self.arr(r, S)
        return r

    def near(self, v):
        """decimal value of an expression of constants."""
        if id(v) in self.approx:
            return self.approx[id(v)][1]
        c = self.const_num(v)
        return None if c is None else float(c)

    @staticmethod
    def const_num(v):
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return v.v
        if isinstance(v, Num) and isinstance(v.pay.sym, poly.mlval.Val):
            return poly.mlval.small_rational(v.pay.sym)
        return None

    def unop(self, op, v, S, e):
        if isinstance(v, ND):
            return self.map(lambda x: self.unop(op, x, S, e), S, v)
        return super().unop(op, v, S, e)

    def compare(self, op, a, b, S, node):
        if (isinstance(a, ND) or isinstance(b, ND)) and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            for x in (a, b):
                if isinstance(x, Const) and (x.v is None or isinstance(x.v, str)):
                    return FALSE if isinstance(op, ast.Eq) else TRUE
            return self.map(lambda x, y: self.compare(op, x, y, S, node), S, a, b)
        if self.approx and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (id(a) in self.approx or id(b) in self.approx):
            x, y = self.near(a), self.near(b)
            if x is not None and y is not None and abs(x - y) > 1e-9 * max(abs(x), abs(y)):
                return Const((x < y) == isinstance(op, (ast.Lt, ast.LtE)))
        return super().compare(op, a, b, S, node)

    def is_same(self, a, b, S):
        if isinstance(a, ND) and isinstance(b, ND):
            return a is b
        if isinstance(a, ND) or isinstance(b, ND):
            return False
        if isinstance(a, Native) or isinstance(b, Native):
            return a is b
        return super().is_same(a, b, S)

    def equal(self, a, b, S):
        if isinstance(a, ND) or isinstance(b, ND):
            return False if not (isinstance(a, ND) and isinstance(b, ND)) else None
        if isinstance(a, Native) and isinstance(b, Native):
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Const, Num)) and (isinstance(y, Tup) and not y.arr or isinstance(y, Ref) and self.hget(S, y).kind in ('list', 'dict', 'set')):
                return False
        return super().equal(a, b, S)

    def kind_of(self, *vs):
        if any(isinstance(v, ND) for v in vs):
            return 'a'
        return super().kind_of(*vs)

    def contains(self, c, x, S):
        if isinstance(c, ND):
            for y in self.el(c, S):
                if self.truth(self.compare(ast.Eq(), x, y, S, None), S):
                    return True
            return False
        return super().contains(c, x, S)


def _axis(v):
    if v is None or isinstance(v, Const) and v.v is None:
        return None
    if isinstance(v, Const) and isinstance(v.v, int):
        return v.v
    if isinstance(v, Tup) and all(isinstance(x, Const) for x in v.items):
        return tuple(x.v for x in v.items)
    raise Unsupported('axis')


METHODS = {'sum', 'mean', 'max', 'min', 'prod', 'cumsum', 'dot', 'any', 'all', 'repeat', 'take', 'clip', 'round', 'conj', 'conjugate', 'argmax', 'argmin', 'argsort',
           'std', 'var', 'transpose', 'swapaxes', 'squeeze', 'nonzero', 'diagonal', 'trace', 'ravel'}


class NDNP(NP):
    def shapearg(self, v, S):
        it = self.it
        i = it.const_int(v, S) if not isinstance(v, (Tup, Ref)) and not (isinstance(v, ND) and v.shape != ()) else None
        if i is not None:
            return (i,)
        items, _ = it.iterate(v, S, None)
        if items is None:
            raise Unsupported('unknown shape')
        out = [it.const_int(x, S) for x in items]
        if None in out:
            raise Unsupported('unknown shape')
        return tuple(out)

    def transpose(self, a, axes):
        n = len(a.shape)
        axes = list(range(n))[::-1] if axes is None else [x % n for x in axes]
        st = strides(a.shape)
        sh = [a.shape[i] for i in axes]
        return ND(a.ref, tuple(a.idx[sum(t)] for t in itertools.product(*[[k * st[i] for k in range(a.shape[i])] for i in axes])), sh)

    def reduce_nd(self, a, axis, S, f, init=None):
        """f(list of elements) -> element."""
        it = self.it
        n = len(a.shape)
        if axis is None:
            e = it.el(a, S)
            return f(e)
        axs = (axis,) if isinstance(axis, int) else axis
        axs = sorted(x % n for x in axs)
        keep = [i for i in range(n) if i not in axs]
        t = self.transpose(a, keep + axs)
        m = size([a.shape[i] for i in axs])
        e = it.el(t, S)
        out = [f(e[i * m:(i + 1) * m]) for i in range(len(e) // m if m else 0)]
        sh = [a.shape[i] for i in keep]
        return out[0] if not sh else it.nd(S, out, sh)

    def total(self, e, S, node):
        it = self.it
        r = Const(0)
        for x in e:
            if isinstance(x, Const) and isinstance(x.v, bool):
                x = Const(int(x.v))
            if isinstance(r, Const) and r.v == 0:
                r = x
            elif isinstance(x, Const) and x.v == 0 and not isinstance(x.v, bool):
                pass
            else:
                r = it.binop(ast.Add(), r, x, S, node)
        return r

    def dot(self, a, b, S, node, mat=False):
        it = self.it
        A, B = it.arr(a, S), it.arr(b, S)
        if A.shape == () or B.shape == ():
            return it.binop(ast.Mult(), a, b, S, node)

        def ip(x, y):
            t = []
            for p, q in zip(x, y):
                if isinstance(p, Const) and p.v == 0 or isinstance(q, Const) and q.v == 0:
                    continue
                t.append(it.binop(ast.Mult(), p, q, S, node))
            return self.total(t, S, node)
        ea, eb = it.el(A, S), it.el(B, S)
        if len(A.shape) > 2 or len(B.shape) > 2:
            raise Unsupported('dot of higher dimension')
        n = A.shape[-1]
        m = B.shape[0]
        if n != m:
            raise Bottom('shapes not aligned')
        rows = [ea[i * n:(i + 1) * n] for i in range(len(ea) // n)] if n else []
        if len(B.shape) == 1:
            cols = [eb]
        else:
            k = B.shape[1]
            cols = [eb[j::k] for j in range(k)]
        out = [ip(r, c) for r in rows for c in cols]
        sh = A.shape[:-1] + B.shape[1:]
        return out[0] if sh == () else it.nd(S, out, sh)

    def cat(self, items, axis, S):
        it = self.it
        items = [x for x in items]
        n = len(items[0].shape)
        axis %= n
        sh = list(items[0].shape)
        sh[axis] = 0
        for x in items:
            if len(x.shape) != n or any(x.shape[i] != sh[i] for i in range(n) if i != axis):
                raise Bottom('concatenate shapes')
            sh[axis] += x.shape[axis]
        order = [axis] + [i for i in range(n) if i != axis]
        flat = []
        for x in items:
            flat += it.el(self.transpose(x, order), S)
        t = it.nd(S, flat, [sh[i] for i in order])
        back = [order.index(i) for i in range(n)]
        t = self.transpose(t, back)
        return it.nd(S, it.el(t, S), t.shape)

    def reshaped(self, a, sh, S):
        return ND(a.ref, a.idx, newshape(sh, len(a.idx)))

    def isnd(self, v, S):
        return isinstance(v, ND) or isinstance(v, Tup) and v.arr

    def hasarr(self, args, kw, S):
        return any(isinstance(v, (ND, Tup)) or isinstance(v, Ref) and self.it.hget(S, v).kind == 'list' for v in list(args) + list(kw.values()))

    def deep(self, v, S, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, ND):
            k = ('nd', v.ref.id)
            if k not in memo:
                memo[k] = self.it.alloc(S, self.it.hget(S, v.ref))
            return ND(memo[k], v.idx, v.shape)
        return super().deep(v, S, memo)

    def shallow(self, v, S):
        if isinstance(v, ND):
            return self.it.nd(S, self.it.el(v, S), v.shape)
        return super().shallow(v, S)

    def isinstance_(self, v, c, S):
        if isinstance(v, ND) and not isinstance(c, Tup):
            if isinstance(c, ExtV):
                return strip(c.path) in ('ndarray', 'Iterable', 'Sized')
            return False
        return super().isinstance_(v, c, S)

    def hasattr_(self, a, nm, S):
        if isinstance(a, ND) and isinstance(nm, Const):
            return Const(nm.v in ('__len__', '__iter__', 'shape', 'size', 'ndim', 'T', 'dtype', 'copy', 'flatten'))
        return super().hasattr_(a, nm, S)

    def call_ext(self, path, args, kw, S, node, su=None, ku=None):
        if path.startswith('builtins.'):
            return self.nd_builtin(path[9:], args, kw, S, node, su, ku)
        root = path.split('.')[0]
        if root in ('numpy', 'scipy', 'math'):
            r = self.nd_numeric(path, strip(path), list(args), dict(kw), S, node)
            nm = path.split('.')
            if len(nm) == 2 and nm[1] in ('sqrt', 'log', 'exp', 'log10') and len(args) == 1 and (isinstance(args[0], Const) or id(args[0]) in self.it.approx):
                x = self.it.near(args[0])
                if r is None:
                    r = super().call_ext(path, args, kw, S, node, su, ku)
                if isinstance(r, Num) and x is not None and (x > 0 or nm[1] == 'exp' and x > -700) and x < 700:
                    self.it.approx[id(r)] = (r, getattr(math, nm[1])(x))
                return r
            if r is not None:
                return r
            if path.startswith('scipy.interpolate.') and getattr(self.it, 'spline', None):
                return self.it.spline(path, args, kw, S)
            if path.startswith('scipy.special.') and not kw and any(isinstance(a, ND) for a in args):
                return self.it.map(lambda *v: self.call_ext(path, list(v), {}, S, node), S, *args)
            if any(isinstance(a, ND) for a in list(args) + list(kw.values())):
                raise Unsupported('%s on arrays' % path)
        r = super().call_ext(path, args, kw, S, node, su, ku)
        if isinstance(r, Tup) and r.arr:
            r = self.it.arr(r, S)
        if isinstance(r, Num) and r.kind == 'a':
            raise Unsupported(path)
        return r

    def nd_builtin(self, n, args, kw, S, node, su, ku):
        it = self.it
        a = args[0] if args else None
        if n == 'range':
            xs = [it.const_int(x, S) for x in args]
            if None in xs:
                raise Unsupported('range')
            if any(isinstance(x, Const) and isinstance(x.v, float) for x in args):
                raise Bottom('range of float')
            return it.new_list(S, [Const(i) for i in range(*xs)])
        if isinstance(a, ND):
            if n == 'len':
                if a.shape == ():
                    raise Bottom('len of scalar')
                return Const(a.shape[0])
            if n in ('int', 'float', 'bool', 'complex', 'round') and len(a.idx) == 1:
                return self.nd_builtin(n, [it.el(a, S)[0]] + list(args[1:]), kw, S, node, su, ku)
            if n == 'abs':
                return self.nd_numeric('numpy.abs', 'abs', args, kw, S, node)
            if n == 'sum':
                return self.nd_numeric('numpy.sum', 'sum', [a, Const(0)], {}, S, node)
            if n in ('max', 'min') and len(args) == 1:
                return self.extreme(it.el(a, S), n == 'max', S, node)
            if n == 'type':
                return ExtV('numpy.ndarray')
        if n in ('max', 'min'):
            xs = args
            if len(args) == 1:
                xs, _ = it.iterate(a, S, node)
            if xs is not None and not any(isinstance(x, ND) for x in xs):
                return self.extreme(list(xs), n == 'max', S, node)
        if n == 'sum':
            xs, _ = it.iterate(a, S, node)
            if xs is not None:
                r = args[1] if len(args) > 1 else Const(0)
                for x in xs:
                    r = it.binop(ast.Add(), r, x, S, node)
                return r
        if n == 'sorted' and len(args) == 1 and not kw:
            xs, _ = it.iterate(a, S, node)
            if xs is not None and all(it.const_num(x) is not None for x in xs):
                return it.new_list(S, sorted(xs, key=it.const_num))
        if n in ('int', 'round') and len(args) == 1 and isinstance(a, Num):
            c = it.const_num(a)
            if c is None and id(a) in it.approx:
                c = it.approx[id(a)][1]
            if c is not None:
                return Const(int(c) if n == 'int' else round(c))
        r = super().builtin(n, args, kw, S, node, su, ku)
        return r

    def extreme(self, xs, mx, S, node):
        it = self.it
        if not xs:
            raise Bottom('empty extremum')
        r = xs[0]
        for x in xs[1:]:
            t = it.truth(it.compare(ast.Gt() if mx else ast.Lt(), x, r, S, node), S)
            if t is None:
                n = 'maximum' if mx else 'minimum'
                r = self.numeric('numpy.' + n, n, [r, x], {}, S, node, it.where(node))
                continue
            r = x if t else r
        return r

    def order(self, xs, S, node):
        """stable argsort."""
        it = self.it
        out = []
        for i, x in enumerate(xs):
            k = len(out)
            while k and it.truth(it.compare(ast.Lt(), x, xs[out[k - 1]], S, node), S):
                k -= 1
            out.insert(k, i)
        return out

    def call_meth(self, r, n, args, kw, S, node, su=None, ku=None):
        it = self.it
        if isinstance(r, Tup) and r.arr:
            r = it.arr(r, S)
        if isinstance(r, ND):
            args = list(args)
            if n == 'reshape':
                sh = args if args else [kw['shape']] if 'shape' in kw else [kw['newshape']]
                sh = self.shapearg(sh[0] if len(sh) == 1 else Tup(sh), S)
                return self.reshaped(r, sh, S)
            if n in ('ravel',):
                return ND(r.ref, r.idx, (len(r.idx),))
            if n == 'flatten':
                return it.nd(S, it.el(r, S), (len(r.idx),))
            if n in ('copy',):
                return it.nd(S, it.el(r, S), r.shape)
            if n == 'astype':
                return it.map(lambda x: self.cast(x, args[0] if args else kw.get('dtype'), S, node), S, r) if r.idx else r
            if n == 'tolist':
                if len(r.shape) == 1:
                    return it.new_list(S, it.el(r, S))
                xs, _ = it.iterate(r, S, node)
                return it.new_list(S, [self.call_meth(x, 'tolist', [], {}, S, node) for x in xs])
            if n == 'item':
                return it.el(r, S)[0]
            if n == 'fill':
                it.put(r, [args[0]] * len(r.idx), S)
                return NONE
            if n == 'sort':
                e = it.el(r, S)
                if len(r.shape) != 1:
                    raise Unsupported('sort')
                it.put(r, [e[i] for i in self.order(e, S, node)], S)
                return NONE
            if n == 'transpose' and args:
                ax = self.shapearg(args[0] if len(args) == 1 else Tup(args), S)
                return self.transpose(r, ax)
            if n in METHODS:
                v = self.nd_numeric('numpy.' + n, n, [r] + args, kw, S, node)
                if v is not None:
                    return v
            raise Unsupported('method %s of an array' % n)
        if isinstance(r, (Num, Const)) and not (isinstance(r, Const) and isinstance(r.v, str)) and n in ('sum', 'mean', 'max', 'min', 'copy', 'flatten', 'any', 'all', 'item', 'squeeze'):
            return r
        v = super().call_meth(r, n, args, kw, S, node, su, ku)
        return v

    def cast(self, x, t, S, node):
        it = self.it
        nm = t.v if isinstance(t, Const) else strip(t.path) if isinstance(t, ExtV) else ''
        if nm in ('int', 'int64', 'int32', 'intp'):
            if isinstance(x, Const):
                return Const(int(x.v))
            c = it.const_num(x)
            if c is None and id(x) in it.approx:
                c = it.approx[id(x)][1]
            if c is not None:
                return Const(int(c))
            raise Unsupported('integer cast')
        if nm in ('bool', 'bool_'):
            return Const(bool(it.truth(x, S)))
        if nm in ('float', 'float64', 'float32', 'complex') and isinstance(x, Const) and isinstance(x.v, (bool, int)):
            return Const(float(x.v))
        return x

    # ------------------------------------------------------------------ numpy functions
    def nd_numeric(self, path, n, args, kw, S, node):
        it = self.it
        A = lambda v: it.arr(v, S)
        B = lambda op, x, y: it.binop(op, x, y, S, node)
        arrs = self.hasarr(args, kw, S)
        if n in ('zeros', 'ones', 'empty', 'full') and path == 'numpy.' + n:
            sh = self.shapearg(args[0] if args else kw['shape'], S)
            dt = kw.get('dtype', args[1] if len(args) > 1 and n != 'full' else None)
            v = {'zeros': Const(0.), 'ones': Const(1.), 'empty': Const(0.)}.get(n)
            if n == 'full':
                v = args[1] if len(args) > 1 else kw['fill_value']
            if dt is not None and n != 'full':
                nm = dt.v if isinstance(dt, Const) else strip(dt.path) if isinstance(dt, ExtV) else ''
                if nm in ('bool', 'bool_'):
                    v = Const(bool(v.v))
                if nm in ('int', 'int64', 'int32'):
                    v = Const(int(v.v))
            return it.nd(S, [v] * size(sh), sh)
        if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            a = A(args[0])
            v = {'z': Const(0.), 'o': Const(1.), 'e': Const(0.)}.get(n[0])
            if n == 'full_like':
                v = args[1] if len(args) > 1 else kw['fill_value']
            dt = kw.get('dtype', args[1] if len(args) > 1 and n != 'full_like' else None)
            if dt is not None:
                v = self.cast(v, dt, S, node)
            elif v is not None and n != 'full_like' and a.idx and all(isinstance(x, Const) and isinstance(x.v, bool) for x in it.el(a, S)):
                v = Const(bool(v.v))
            if a.shape == ():
                return v
            return it.nd(S, [v] * len(a.idx), a.shape)
        if n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray') and path == 'numpy.' + n:
            a0 = args[0] if args else kw.get('object')
            if isinstance(a0, Ref) and it.hget(S, a0).kind != 'list':
                return None
            if isinstance(a0, (Top, ExtObj)):
                raise Unsupported('array of unknown')
            if isinstance(a0, Const) and a0.v is None:
                return None
            xs = None if isinstance(a0, (Num, Const, ND)) else it.iterate(a0, S, node)[0]
            if xs and any(isinstance(x, Const) and (isinstance(x.v, str) or x.v is None) for x in xs):
                return it.new_list(S, xs)
            a = A(a0)
            dt = kw.get('dtype', args[1] if len(args) > 1 else None)
            cp = n == 'array' and not (isinstance(kw.get('copy'), Const) and kw['copy'].v is False)
            if cp and a is a0:
                a = it.nd(S, it.el(a, S), a.shape)
            if dt is not None and a.idx:
                a = A(it.map(lambda x: self.cast(x, dt, S, node), S, a))
            return it.el(a, S)[0] if a.shape == () else a
        if n == 'arange':
            xs = [it.const_num(it.scal(x, S)) for x in args]
            if None in xs or not xs:
                raise Unsupported('arange')
            lo, hi, stp = (0, xs[0], 1) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else 1)
            st = kw.get('step')
            if st is not None:
                stp = it.const_num(st)
            fl = any(isinstance(x, float) for x in (lo, hi, stp))
            f = lambda x: Fraction(repr(x)) if isinstance(x, float) else Fraction(x)
            lo, hi, stp = f(lo), f(hi), f(stp)
            out, v = [], lo
            while (v < hi) if stp > 0 else (v > hi):
                out.append(Const(float(v) if fl or v.denominator != 1 else int(v)))
                v += stp
                if len(out) > LIMIT:
                    raise Unsupported('arange')
            return it.nd(S, out, (len(out),))
        if n == 'linspace':
            lo = args[0] if args else kw['start']
            hi = args[1] if len(args) > 1 else kw['stop']
            m = it.const_int(args[2] if len(args) > 2 else kw.get('num', Const(50)), S)
            if m is None or isinstance(lo, ND) or isinstance(hi, ND):
                raise Unsupported('linspace')
            ep = kw.get('endpoint')
            k = m if isinstance(ep, Const) and ep.v is False else m - 1
            d = B(ast.Sub(), hi, lo)
            out = [lo if i == 0 else hi if i == k else B(ast.Add(), lo, B(ast.Div(), B(ast.Mult(), d, Const(i)), Const(k))) for i in range(m)]
            v = it.nd(S, out, (m,))
            if isinstance(kw.get('retstep'), Const) and kw['retstep'].v:
                return Tup([v, B(ast.Div(), d, Const(k))])
            return v
        if n in ('eye', 'identity'):
            m = it.const_int(args[0], S)
            return it.nd(S, [Const(1. if i == j else 0.) for i in range(m) for j in range(m)], (m, m))
        if n == 'meshgrid':
            vs = [A(a) for a in args]
            ij = isinstance(kw.get('indexing'), Const) and kw['indexing'].v == 'ij'
            if len(vs) == 2:
                x, y = it.el(vs[0], S), it.el(vs[1], S)
                if ij:
                    return it.new_list(S, [it.nd(S, [p for p in x for q in y], (len(x), len(y))), it.nd(S, [q for p in x for q in y], (len(x), len(y)))])
                return it.new_list(S, [it.nd(S, [p for q in y for p in x], (len(y), len(x))), it.nd(S, [q for q in y for p in x], (len(y), len(x)))])
            raise Unsupported('meshgrid')
        if n in ('shape',) and path == 'numpy.shape':
            return Tup([Const(i) for i in A(args[0]).shape])
        if n == 'size' and path == 'numpy.size':
            return Const(len(A(args[0]).idx))
        if n == 'ndim':
            return Const(len(A(args[0]).shape))
        if n == 'isscalar':
            return Const(not arrs)
        if n == 'atleast_1d':
            a = A(args[0])
            return a if a.shape else it.nd(S, it.el(a, S), (1,))
        if n in ('maximum', 'minimum', 'fmax', 'fmin'):
            def mm(x, y):
                p, q = it.const_num(x), it.const_num(y)
                if p is not None and q is not None and p == p and q == q:
                    return x if (p >= q) == (n in ('maximum', 'fmax')) else y
                return self.numeric(path, n, [x, y], {}, S, node, it.where(node))
            return it.map(mm, S, *args[:2])
        if n == 'next_fast_len':
            m = it.const_int(args[0], S)
            while True:
                k = m
                for p in (2, 3, 5):
                    while k % p == 0:
                        k //= p
                if k == 1:
                    return Const(m)
                m += 1
        if n == 'issubdtype':
            if isinstance(args[0], ExtV) and isinstance(args[1], ExtV):
                return Const(args[0].path == args[1].path or args[1].path.endswith(('floating', 'number', 'inexact')) and not args[1].path.endswith('complexfloating'))
            raise Unsupported('dtype')
        if not arrs:
            if n in ('sum', 'mean', 'prod', 'max', 'min') and len(args) == 1 and not kw and (isinstance(args[0], Const) and isinstance(args[0].v, (int, float)) or isinstance(args[0], Num) and args[0].kind == 's'):
                return args[0]
            return None
        if n in ('dstack', 'vstack', 'hstack', 'stack', 'concatenate', 'append', 'column_stack', 'row_stack') and path == 'numpy.' + n:
            if n == 'append':
                x, y = A(args[0]), A(args[1])
                ax = kw.get('axis', args[2] if len(args) > 2 else NONE)
                if _axis(ax) is not None:
                    return self.cat([x, y], _axis(ax), S)
                return it.nd(S, it.el(x, S) + it.el(y, S), (len(x.idx) + len(y.idx),))
            xs = [A(x) for x in it.iterate(args[0], S, node)[0]]
            ax = _axis(kw.get('axis', args[1] if len(args) > 1 else Const(0)))
            if n == 'stack':
                return self.cat([ND(x.ref, x.idx, x.shape[:ax % (len(x.shape) + 1)] + (1,) + x.shape[ax % (len(x.shape) + 1):]) for x in xs], ax, S)
            up1 = lambda x: ND(x.ref, x.idx, (1,)) if x.shape == () else x
            if n == 'concatenate':
                if ax is None:
                    e = [y for x in xs for y in it.el(x, S)]
                    return it.nd(S, e, (len(e),))
                return self.cat(xs, ax, S)
            if n == 'hstack':
                xs = [up1(x) for x in xs]
                return self.cat(xs, 0 if len(xs[0].shape) == 1 else 1, S)
            if n in ('vstack', 'row_stack'):
                return self.cat([ND(x.ref, x.idx, (1,) + up1(x).shape) if len(x.shape) < 2 else x for x in xs], 0, S)
            if n == 'column_stack':
                return self.cat([ND(x.ref, x.idx, (len(x.idx), 1)) if len(x.shape) < 2 else x for x in xs], 1, S)
            if n == 'dstack':
                out = []
                for x in xs:
                    sh = x.shape
                    sh = (1, 1, 1) if sh == () else (1, sh[0], 1) if len(sh) == 1 else sh + (1,) if len(sh) == 2 else sh
                    out.append(ND(x.ref, x.idx, sh))
                return self.cat(out, 2, S)
        if n in ('reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'expand_dims', 'atleast_2d', 'broadcast_to', 'moveaxis', 'rollaxis') and path == 'numpy.' + n:
            a = A(args[0])
            if n == 'reshape':
                return self.reshaped(a, self.shapearg(args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape')), S), S)
            if n == 'ravel':
                return ND(a.ref, a.idx, (len(a.idx),))
            if n == 'transpose':
                ax = args[1] if len(args) > 1 else kw.get('axes')
                return self.transpose(a, None if ax is None else self.shapearg(ax, S))
            if n == 'squeeze':
                return ND(a.ref, a.idx, [s for s in a.shape if s != 1])
            if n == 'swapaxes':
                p = list(range(len(a.shape)))
                i, j = _axis(args[1]), _axis(args[2])
                p[i], p[j] = p[j], p[i]
                return self.transpose(a, p)
            if n == 'expand_dims':
                ax = _axis(args[1] if len(args) > 1 else kw['axis']) % (len(a.shape) + 1)
                return ND(a.ref, a.idx, a.shape[:ax] + (1,) + a.shape[ax:])
            if n == 'atleast_2d':
                return a if len(a.shape) >= 2 else ND(a.ref, a.idx, (1,) + (a.shape or (1,)))
            if n == 'broadcast_to':
                sh = self.shapearg(args[1], S)
                e = it.el(a, S)
                return it.nd(S, [e[i] for i in bidx(a.shape, sh)], sh)
            raise Unsupported(n)
        if n == 'tile':
            a = A(args[0])
            rep = self.shapearg(args[1] if len(args) > 1 else kw['reps'], S)
            sh = (1,) * (len(rep) - len(a.shape)) + a.shape
            rep = (1,) * (len(sh) - len(rep)) + rep
            st = strides(sh)
            e = it.el(a, S)
            pos = [sum(t) for t in itertools.product(*[[k % sh[i] * st[i] for k in range(sh[i] * rep[i])] for i in range(len(sh))])]
            return it.nd(S, [e[i] for i in pos], [s * r for s, r in zip(sh, rep)])
        if n == 'repeat':
            a = A(args[0])
            m = it.const_int(args[1] if len(args) > 1 else kw['repeats'], S)
            ax = _axis(kw.get('axis', args[2] if len(args) > 2 else None))
            if m is None:
                raise Unsupported('repeat')
            if ax is None:
                e = [x for x in it.el(a, S) for _ in range(m)]
                return it.nd(S, e, (len(e),))
            ax %= len(a.shape)
            st = strides(a.shape)
            e = it.el(a, S)
            pos = [sum(t) for t in itertools.product(*[[(k // m if i == ax else k) * st[i] for k in range(a.shape[i] * (m if i == ax else 1))] for i in range(len(a.shape))])]
            return it.nd(S, [e[i] for i in pos], [s * (m if i == ax else 1) for i, s in enumerate(a.shape)])
        if n in ('sum', 'nansum', 'mean', 'nanmean', 'average', 'prod', 'any', 'all', 'max', 'min', 'amax', 'amin', 'count_nonzero', 'std', 'var', 'nanmax', 'nanmin', 'median'):
            a = A(args[0])
            ax = _axis(kw.get('axis', args[1] if len(args) > 1 else None))
            if isinstance(kw.get('keepdims'), Const) and kw['keepdims'].v:
                raise Unsupported('keepdims')
            if n == 'average' and 'weights' in kw and not (isinstance(kw['weights'], Const) and kw['weights'].v is None):
                wv = A(kw['weights'])
                if wv.shape != a.shape or ax is not None:
                    raise Unsupported('weighted average')
                return B(ast.Div(), self.total([B(ast.Mult(), x, y) for x, y in zip(it.el(a, S), it.el(wv, S))], S, node), self.total(it.el(wv, S), S, node))
            if n in ('sum', 'nansum'):
                return self.reduce_nd(a, ax, S, lambda e: self.total(e, S, node))
            if n in ('mean', 'nanmean', 'average'):
                return self.reduce_nd(a, ax, S, lambda e: B(ast.Div(), self.total(e, S, node), Const(len(e))))
            if n == 'var':
                def var(e):
                    m = B(ast.Div(), self.total(e, S, node), Const(len(e)))
                    d = [B(ast.Sub(), x, m) for x in e]
                    return B(ast.Div(), self.total([B(ast.Mult(), x, x) for x in d], S, node), Const(len(e)))
                return self.reduce_nd(a, ax, S, var)
            if n == 'prod':
                def prod(e):
                    r = Const(1)
                    for x in e:
                        r = B(ast.Mult(), r, x)
                    return r
                return self.reduce_nd(a, ax, S, prod)
            if n in ('any', 'all'):
                return self.reduce_nd(a, ax, S, lambda e: Const((any if n == 'any' else all)([self.sure(x, S) for x in e])))
            if n == 'count_nonzero':
                return self.reduce_nd(a, ax, S, lambda e: Const(sum(self.sure(x, S) for x in e)))
            if n in ('max', 'min', 'amax', 'amin', 'nanmax', 'nanmin'):
                return self.reduce_nd(a, ax, S, lambda e: self.extreme(e, 'max' in n, S, node))
            raise Unsupported(n)
        if n in ('argmax', 'argmin', 'argsort', 'sort', 'nanargmax', 'nanargmin'):
            a = A(args[0])
            if len(a.shape) != 1 and n not in ('argmax', 'argmin'):
                raise Unsupported(n)
            e = it.el(a, S)
            o = self.order(e, S, node)
            if n == 'argsort':
                return it.nd(S, [Const(i) for i in o], (len(o),))
            if n == 'sort':
                return it.nd(S, [e[i] for i in o], (len(o),))
            if n.endswith('argmin'):
                return Const(o[0])
            m = o[-1]
            for i in reversed(o):
                if it.truth(it.compare(ast.Eq(), e[i], e[m], S, node), S):
                    m = min(m, i)
                else:
                    break
            return Const(m)
        if n == 'cumsum':
            a = A(args[0])
            if len(a.shape) != 1:
                raise Unsupported('cumsum')
            out, r = [], None
            for x in it.el(a, S):
                r = x if r is None else B(ast.Add(), r, x)
                out.append(r)
            return it.nd(S, out, a.shape)
        if n == 'diff':
            a = A(args[0])
            e = it.el(a, S)
            if len(a.shape) != 1 or len(args) > 1:
                raise Unsupported('diff')
            return it.nd(S, [B(ast.Sub(), y, x) for x, y in zip(e, e[1:])], (len(e) - 1,))
        if n in ('where', 'nonzero', 'flatnonzero', 'argwhere'):
            if len(args) == 3:
                return it.map(lambda c, x, y: x if self.sure(c, S) else y, S, *args)
            a = A(args[0])
            pos = [i for i, x in enumerate(it.el(a, S)) if self.sure(x, S)]
            if n == 'flatnonzero':
                return it.nd(S, [Const(i) for i in pos], (len(pos),))
            st = strides(a.shape)
            cols = []
            for d in range(len(a.shape)):
                cols.append([i // st[d] % a.shape[d] for i in pos])
            if n == 'argwhere':
                return it.nd(S, [Const(c[k]) for k in range(len(pos)) for c in cols], (len(pos), len(cols)))
            return Tup([it.nd(S, [Const(i) for i in c], (len(c),)) for c in cols])
        if n in ('invert', 'bitwise_not') and arrs:
            return it.unop(ast.Invert(), args[0], S, node)
        if n in ('logical_and', 'logical_or', 'logical_not', 'logical_xor', 'isnan', 'isinf', 'isfinite'):
            f = {'logical_and': lambda x, y: Const(self.sure(x, S) and self.sure(y, S)), 'logical_or': lambda x, y: Const(self.sure(x, S) or self.sure(y, S)),
                 'logical_xor': lambda x, y: Const(self.sure(x, S) != self.sure(y, S)), 'logical_not': lambda x: Const(not self.sure(x, S)),
                 'isnan': lambda x: Const(isinstance(x, Const) and x.v != x.v), 'isinf': lambda x: Const(isinstance(x, Const) and abs(x.v) == float('inf')),
                 'isfinite': lambda x: Const(not isinstance(x, Const) or abs(x.v) < float('inf'))}[n]
            return it.map(f, S, *args)
        if n in ('greater', 'less', 'equal', 'not_equal', 'greater_equal', 'less_equal'):
            op = {'greater': ast.Gt, 'less': ast.Lt, 'equal': ast.Eq, 'not_equal': ast.NotEq, 'greater_equal': ast.GtE, 'less_equal': ast.LtE}[n]()
            return it.map(lambda x, y: it.compare(op, x, y, S, node), S, *args[:2])
        if n == 'nan_to_num':
            return it.map(lambda x: x, S, args[0])
        if n in ('dot', 'matmul', 'inner', 'vdot') and len(args) == 2:
            return self.dot(args[0], args[1], S, node)
        if n == 'kron':
            a, b = A(args[0]), A(args[1])
            if len(a.shape) != 2 or len(b.shape) != 2:
                raise Unsupported('kron')
            (p, q), (r, s) = a.shape, b.shape
            ea, eb = it.el(a, S), it.el(b, S)
            return it.nd(S, [B(ast.Mult(), ea[(y // r) * q + x // s], eb[(y % r) * s + x % s]) for y in range(p * r) for x in range(q * s)], (p * r, q * s))
        if n == 'outer':
            x, y = it.el(A(args[0]), S), it.el(A(args[1]), S)
            return it.nd(S, [B(ast.Mult(), p, q) for p in x for q in y], (len(x), len(y)))
        if n in ('flip', 'fliplr', 'flipud', 'rot90', 'roll'):
            a = A(args[0])
            e = it.el(a, S)
            if n == 'rot90':
                k = it.const_int(args[1] if len(args) > 1 else kw.get('k', Const(1)), S) % 4
                for _ in range(k):
                    st = a.shape[1]
                    a = ND(a.ref, tuple(a.idx[r * st + c] for c in reversed(range(st)) for r in range(a.shape[0])), (a.shape[1], a.shape[0]))
                return a
            if n == 'roll':
                if len(a.shape) != 1 and 'axis' in kw or len(args) > 2:
                    raise Unsupported('roll')
                m = it.const_int(args[1] if len(args) > 1 else kw['shift'], S)
                return it.nd(S, [e[(i - m) % len(e)] for i in range(len(e))], a.shape)
            ax = _axis(kw.get('axis', args[1] if len(args) > 1 else None)) if n == 'flip' else (1 if n == 'fliplr' else 0)
            axs = range(len(a.shape)) if ax is None else [x % len(a.shape) for x in ((ax,) if isinstance(ax, int) else ax)]
            st = strides(a.shape)
            pos = [sum(t) for t in itertools.product(*[[(a.shape[i] - 1 - k if i in axs else k) * st[i] for k in range(a.shape[i])] for i in range(len(a.shape))])]
            return ND(a.ref, tuple(a.idx[i] for i in pos), a.shape)
        if n == 'pad':
            a = A(args[0])
            pw = args[1] if len(args) > 1 else kw['pad_width']
            i = it.const_int(pw, S) if isinstance(pw, (Const, Num)) else None
            if i is not None:
                w = [(i, i)] * len(a.shape)
            else:
                p = A(pw)
                v = [it.const_int(x, S) for x in it.el(p, S)]
                w = [(v[0], v[1])] * len(a.shape) if p.shape == (2,) else [(v[2 * k], v[2 * k + 1]) for k in range(len(a.shape))] if p.shape == (len(a.shape), 2) else None
            mode = args[2] if len(args) > 2 else kw.get('mode', Const('constant'))
            if w is None or not (isinstance(mode, Const) and mode.v == 'constant'):
                raise Unsupported('pad')
            cv = kw.get('constant_values', Const(0))
            st = strides(a.shape)
            e = it.el(a, S)
            out = []
            for t in itertools.product(*[range(-w[i][0], a.shape[i] + w[i][1]) for i in range(len(a.shape))]):
                out.append(e[sum(k * s for k, s in zip(t, st))] if all(0 <= k < n_ for k, n_ in zip(t, a.shape)) else cv)
            return it.nd(S, out, [s + l + r for s, (l, r) in zip(a.shape, w)])
        if n == 'delete':
            a = A(args[0])
            ax = _axis(kw.get('axis', args[2] if len(args) > 2 else None))
            ob = A(args[1])
            iv = [it.const_int(x, S) for x in it.el(ob, S)]
            if None in iv or len(a.shape) != 1 and ax is None:
                raise Unsupported('delete')
            ax = 0 if ax is None else ax % len(a.shape)
            m = a.shape[ax]
            iv = {i % m for i in iv}
            st = strides(a.shape)
            keep = [k for k in range(m) if k not in iv]
            pos = [sum(t) for t in itertools.product(*[[k * st[i] for k in (keep if i == ax else range(a.shape[i]))] for i in range(len(a.shape))])]
            e = it.el(a, S)
            return it.nd(S, [e[i] for i in pos], [len(keep) if i == ax else s for i, s in enumerate(a.shape)])
        if n == 'clip':
            rest = [args[i] if len(args) > i else kw.get(k, kw.get(k2, NONE)) for i, k, k2 in ((1, 'a_min', 'min'), (2, 'a_max', 'max'))]
            return it.map(lambda x: self.numeric(path, n, [x] + rest, {}, S, node, it.where(node)), S, args[0])
        if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'mod', 'float_power', 'floor_divide'):
            op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div, 'mod': ast.Mod, 'floor_divide': ast.FloorDiv}.get(n, ast.Pow)()
            r = it.map(lambda x, y: B(op, x, y), S, *args[:2])
            if 'out' in kw:
                it.put(A(kw['out']), it.el(A(r), S), S)
                return kw['out']
            return r
        if n in ('arctan2', 'hypot', 'heaviside', 'copysign'):
            return it.map(lambda x, y: self.numeric(path, n, [x, y], {}, S, node, it.where(node)), S, *args[:2])
        if n in ('floor', 'ceil', 'round', 'around', 'rint', 'trunc'):
            return it.map(lambda x: self.rounded(n, x, S, node), S, args[0])
        if n in ('copy',):
            a = A(args[0])
            return it.nd(S, it.el(a, S), a.shape)
        if n == 'negative':
            return it.unop(ast.USub(), args[0], S, node)
        if n in ('array_equal', 'allclose', 'isclose'):
            raise Unsupported(n)
        if n == 'diag':
            a = A(args[0])
            if len(a.shape) == 1:
                e = it.el(a, S)
                return it.nd(S, [e[i] if i == j else Const(0.) for i in range(len(e)) for j in range(len(e))], (len(e), len(e)))
            m = min(a.shape)
            return it.nd(S, [it.el(a, S)[i * a.shape[1] + i] for i in range(m)], (m,))
        if n == 'trace':
            a = A(args[0])
            return self.total([it.el(a, S)[i * a.shape[1] + i] for i in range(min(a.shape))], S, node)
        if n in ('real', 'imag', 'conj', 'conjugate'):
            return it.getattr(A(args[0]), n, S, node) if n in ('real', 'imag') else args[0]
        if n == 'unique':
            e = it.el(A(args[0]), S)
            vs = [it.const_num(x) for x in e]
            if None in vs or kw or len(args) > 1:
                raise Unsupported('unique')
            vs = sorted(set(vs))
            return it.nd(S, [Const(v) for v in vs], (len(vs),))
        if n == 'hermval' and path.startswith('numpy.poly') and len(args) > 1:
            cs = it.el(A(args[1]), S)
            if all(isinstance(c, Const) for c in cs):
                x = args[0]
                h0, h1 = Const(1), B(ast.Mult(), Const(2), x)
                t = B(ast.Add(), B(ast.Mult(), Const(0), x), cs[0])
                for k in range(1, len(cs)):
                    if cs[k].v != 0:
                        t = B(ast.Add(), t, B(ast.Mult(), cs[k], h1))
                    h0, h1 = h1, B(ast.Sub(), B(ast.Mult(), B(ast.Mult(), Const(2), x), h1), B(ast.Mult(), Const(2 * k), h0))
                return t
            raise Unsupported('hermval')
        if n == 'einsum':
            raise Unsupported('einsum')
        if n == 'inv' and path.startswith('numpy.linalg'):
            a = A(args[0])
            if a.shape == (2, 2):
                p, q, r, s = it.el(a, S)
                det = B(ast.Sub(), B(ast.Mult(), p, s), B(ast.Mult(), q, r))
                neg = lambda x: it.unop(ast.USub(), x, S, node)
                return it.nd(S, [B(ast.Div(), x, det) for x in (s, neg(q), neg(r), p)], (2, 2))
            if len(a.shape) == 2 and a.shape[0] == a.shape[1] and all(isinstance(x, Const) and x.v == 0 for i, x in enumerate(it.el(a, S)) if i % (a.shape[0] + 1)):
                e = it.el(a, S)
                m = a.shape[0]
                return it.nd(S, [B(ast.Div(), Const(1), x) if i % (m + 1) == 0 else Const(0.) for i, x in enumerate(e)], a.shape)
            if len(a.shape) == 2 and a.shape[0] == a.shape[1] <= 6:
                m = a.shape[0]
                x = self.solve(it.el(a, S), [[Const(int(i == j)) for j in range(m)] for i in range(m)], S, node)
                return it.nd(S, [v for row in x for v in row], a.shape)
            raise Unsupported('inverse')
        if n == 'cond' and 'linalg' in path:
            return Const(1.0)       # premise: matrices that are inverted are well conditioned
        if n == 'det' and 'linalg' in path:
            a = A(args[0])
            if len(a.shape) == 2 and a.shape[0] == a.shape[1] <= 3:
                return self.det(it.el(a, S), a.shape[0], S, node)
            raise Unsupported('determinant')
        if n == 'slogdet' and 'linalg' in path:
            a = A(args[0])
            if len(a.shape) == 2 and a.shape[0] == a.shape[1] <= 3:
                d = self.det(it.el(a, S), a.shape[0], S, node)
                f = lambda g, x: self.call_ext('numpy.' + g, [x], {}, S, node)
                return Tup([f('sign', d), f('log', f('abs', d))])
            raise Unsupported('determinant')
        if n == 'solve' and 'linalg' in path:
            a, b = A(args[0]), A(args[1])
            if len(a.shape) == 2 and a.shape[0] == a.shape[1] == b.shape[0] <= 6 and len(b.shape) <= 2:
                m = a.shape[0]
                k = size(b.shape) // m
                e = it.el(b, S)
                x = self.solve(it.el(a, S), [e[i * k:(i + 1) * k] for i in range(m)], S, node)
                return it.nd(S, [v for row in x for v in row], b.shape)
            raise Unsupported('solve')
        if path.startswith(('numpy.fft', 'scipy.fft')) and n in ('rfftn', 'fftn', 'rfft2', 'fft2', 'irfftn', 'ifftn', 'irfft2', 'ifft2'):
            inv = n.startswith('i')
            a = args[0]
            sh = args[1] if len(args) > 1 else kw.get('s', kw.get('shape'))
            sh = None if sh is None or isinstance(sh, Const) and sh.v is None else self.shapearg(sh, S)
            ax = args[2] if len(args) > 2 else kw.get('axes')
            if ax is not None and not (isinstance(ax, Const) and ax.v is None):
                if self.shapearg(ax, S) not in ((0, 1), (-2, -1)):
                    raise Unsupported('fft axes')
            if inv:
                if not isinstance(a, Spec):
                    raise Unsupported('inverse transform')
                if sh is not None and tuple(sh) != a.nd.shape or sh is None and n.startswith('ir') and a.nd.shape[-1] % 2:
                    raise Unsupported('inverse transform of other shape')
                return a.nd
            a = A(a)
            if len(a.shape) != 2:
                raise Unsupported('fft of other than images')
            sh = a.shape if sh is None else tuple(sh)
            e = it.el(a, S)
            out = [e[i * a.shape[1] + j] if i < a.shape[0] and j < a.shape[1] else Const(0.) for i in range(sh[0]) for j in range(sh[1])]
            return Spec(it.nd(S, out, sh))
        if path.startswith('scipy.ndimage') and n == 'map_coordinates':
            a = A(args[0] if args else kw['input'])
            c = A(args[1] if len(args) > 1 else kw['coordinates'])
            e = it.el(a, S)
            cs = [it.const_num(x) for x in it.el(c, S)]
            mode = kw.get('mode')
            if len(a.shape) != 2 or c.shape[0] != 2 or None in cs or any(x != int(x) for x in cs) or not isinstance(mode, Const) or mode.v != 'constant':
                raise Unsupported('map_coordinates')
            m = len(cs) // 2
            out = []
            for y, x in zip(cs[:m], cs[m:]):
                out.append(e[int(y) * a.shape[1] + int(x)] if 0 <= y < a.shape[0] and 0 <= x < a.shape[1] else kw.get('cval', Const(0.)))
            return it.nd(S, out, c.shape[1:])
        if path.startswith('scipy.ndimage') and n == 'shift':
            order = kw.get('order', args[3] if len(args) > 3 else Const(3))
            sh = args[1] if len(args) > 1 else kw['shift']
            if len(args) > 2 or set(kw) - {'shift', 'order', 'input'}:
                raise Unsupported('shift options')
            return self.shift1(A(args[0] if args else kw['input']), sh, it.const_int(order, S), S, node)
        if path.startswith('scipy.ndimage') and n == 'gaussian_filter':
            return self.gauss(A(args[0]), args[1] if len(args) > 1 else kw['sigma'], kw, S, node)
        if n == 'RectBivariateSpline' and getattr(it, 'spline', None):
            return it.spline(path, args, kw, S)
        if n == 'RectBivariateSpline':
            names = ('x', 'y', 'z', 'bbox', 'kx', 'ky', 's')
            k = dict(zip(names, args))
            k.update(kw)
            if [it.const_num(k.get(q, Const(d))) for q, d in (('kx', 3), ('ky', 3), ('s', 0))] != [1, 1, 0] or 'bbox' in k:
                raise Unsupported('spline order')
            xs, ys = [[it.const_num(v) for v in it.el(A(k[q]), S)] for q in 'xy']
            z = A(k['z'])
            if None in xs + ys or z.shape != (len(xs), len(ys)):
                raise Unsupported('spline grid')
            ez = it.el(z, S)

            def ev(it_, args_, kw_, S_, node_):
                px, py = [[it.const_num(v) for v in it.el(it.arr(q, S_), S_)] for q in args_[:2]]
                if None in px + py or kw_:
                    raise Unsupported('spline evaluation')
                wx, wy = [self.hat(g, p) for g, p in ((xs, px), (ys, py))]
                out = []
                for a_ in wx:
                    for b_ in wy:
                        out.append(self.total([it.binop(ast.Mult(), Const(u * w), ez[i * len(ys) + j], S_, node_) for i, u in a_ for j, w in b_], S_, node_))
                return it.nd(S_, out, (len(px), len(py)))
            return Native(ev, 'RectBivariateSpline')
        if path.startswith('scipy.signal') and n in ('fftconvolve', 'convolve', 'convolve2d', 'oaconvolve'):
            mode = kw.get('mode', args[2] if len(args) > 2 else Const('full'))
            return self.conv(A(args[0]), A(args[1]), mode.v, S, node)
        if n in UNARY and (path.count('.') == 1 or path.startswith('scipy.special')):
            return it.map(lambda x: self.numeric(path, n, [x], {}, S, node, it.where(node)), S, args[0])
        return None

    @staticmethod
    def hat(grid, pts):
        """linear interpolation weights [(index, weight)], constant beyond the ends."""
        f = lambda v: Fraction(v).limit_denominator(10 ** 6) if isinstance(v, float) else Fraction(v)
        g = [f(v) for v in grid]
        out = []
        for p in pts:
            p = min(max(f(p), g[0]), g[-1])
            i = max(k for k in range(len(g) - 1) if g[k] <= p) if len(g) > 1 else 0
            if len(g) == 1:
                out.append([(0, 1.)])
                continue
            w = (p - g[i]) / (g[i + 1] - g[i])
            out.append([(k, float(v)) for k, v in ((i, 1 - w), (i + 1, w)) if v])
        return out

    def det(self, e, m, S, node):
        B = lambda op, x, y: self.it.binop(op, x, y, S, node)
        if m == 1:
            return e[0]
        if m == 2:
            return B(ast.Sub(), B(ast.Mult(), e[0], e[3]), B(ast.Mult(), e[1], e[2]))
        t = None
        for j in range(m):
            minor = [e[r * m + c] for r in range(1, m) for c in range(m) if c != j]
            v = B(ast.Mult(), e[j], self.det(minor, m - 1, S, node))
            t = v if t is None else B(ast.Sub() if j % 2 else ast.Add(), t, v)
        return t

    def solve(self, e, rhs, S, node):
        """Gauss-Jordan elimination; a pivot known to be zero is swapped."""
        B = lambda op, x, y: self.it.binop(op, x, y, S, node)
        m = len(rhs)
        a = [list(e[i * m:(i + 1) * m]) + list(rhs[i]) for i in range(m)]
        zero = lambda x: self.it.const_num(x) == 0
        for c in range(m):
            p = next((r for r in range(c, m) if not zero(a[r][c])), None)
            if p is None:
                raise Unsupported('singular matrix')
            a[c], a[p] = a[p], a[c]
            d = a[c][c]
            a[c] = [B(ast.Div(), x, d) for x in a[c]]
            for r in range(m):
                if r != c and not zero(a[r][c]):
                    k = a[r][c]
                    a[r] = [B(ast.Sub(), x, B(ast.Mult(), k, y)) for x, y in zip(a[r], a[c])]
        return [row[m:] for row in a]

    def shift1(self, a, sh, order, S, node):
        """scipy.ndimage.shift, linear interpolation, zero outside."""
        it = self.it
        s = [it.const_num(x) for x in (it.el(it.arr(sh, S), S) if not isinstance(sh, (Num, Const)) else [sh] * len(a.shape))]
        if None in s or len(a.shape) != 2 or len(s) != 2:
            raise Unsupported('shift')
        if order != 1 and any(x != int(x) for x in s):
            raise Unsupported('spline shift')
        e = it.el(a, S)
        w = []
        for n, d in zip(a.shape, s):
            d = Fraction(d).limit_denominator(10 ** 6)
            row = []
            for i in range(n):
                p = i - d
                if p < 0 or p > n - 1:
                    row.append([])
                    continue
                k = int(p)
                f = p - k
                row.append([(q, v) for q, v in ((k, 1 - f), (k + 1, f)) if v])
            w.append(row)
        out = []
        for wy in w[0]:
            for wx in w[1]:
                out.append(self.total([it.binop(ast.Mult(), self.frac(v * u, S, node), e[q * a.shape[1] + r], S, node) if v * u != 1 else e[q * a.shape[1] + r] for q, v in wy for r, u in wx], S, node))
        return it.nd(S, out, a.shape)

    def frac(self, f, S, node):
        f = Fraction(f)
        return Const(int(f)) if f.denominator == 1 else self.it.binop(ast.Div(), Const(f.numerator), Const(f.denominator), S, node)

    def gauss(self, a, sigma, kw, S, node):
        it = self.it
        sg = it.const_num(it.scal(it.arr(sigma, S), S) if isinstance(sigma, ND) else sigma)
        mode = kw.get('mode', Const('reflect')).v
        tr = it.const_num(kw.get('truncate', Const(4.)))
        if sg is None or tr is None or mode not in ('nearest', 'constant') or set(kw) - {'mode', 'truncate', 'sigma', 'input'} or len(a.shape) != 2:
            raise Unsupported('gaussian filter')
        rad = int(tr * float(sg) + 0.5)
        B = lambda op, x, y: it.binop(op, x, y, S, node)
        ws = [self.numeric('numpy.exp', 'exp', [B(ast.Div(), Const(-i * i), B(ast.Mult(), Const(2), B(ast.Mult(), Const(sg), Const(sg))))], {}, S, node, it.where(node)) if i else Const(1) for i in range(rad + 1)]
        t = ws[0]
        for w in ws[1:]:
            t = B(ast.Add(), t, B(ast.Mult(), Const(2), w))
        ws = [B(ast.Div(), w, t) for w in ws]
        e = it.el(a, S)
        for axis in (0, 1):
            n1, n2 = a.shape
            out = []
            for i in range(n1):
                for j in range(n2):
                    terms = []
                    for d in range(-rad, rad + 1):
                        p, q = (i + d, j) if axis == 0 else (i, j + d)
                        if mode == 'nearest':
                            p, q = min(max(p, 0), n1 - 1), min(max(q, 0), n2 - 1)
                        elif not (0 <= p < n1 and 0 <= q < n2):
                            continue
                        terms.append(B(ast.Mult(), ws[abs(d)], e[p * n2 + q]))
                    out.append(self.total(terms, S, node))
            e = out
        return it.nd(S, e, a.shape)

    def circular(self, a, b, S, node):
        it = self.it
        (n1, n2) = a.shape
        if b.shape != a.shape:
            raise Unsupported('spectra of different shape')
        ea, eb = it.el(a, S), it.el(b, S)
        acc = [[] for _ in ea]
        nz = lambda x: not (isinstance(x, Const) and x.v == 0)
        for p, x in enumerate(ea):
            if not nz(x):
                continue
            for q, y in enumerate(eb):
                if nz(y):
                    acc[((p // n2 + q // n2) % n1) * n2 + (p % n2 + q % n2) % n2].append(it.binop(ast.Mult(), x, y, S, node))
        return it.nd(S, [self.total(t, S, node) for t in acc], a.shape)

    def rounded(self, n, x, S, node):
        import math
        c = self.it.const_num(x)
        if c is None:
            raise Unsupported(n)
        return Const(float({'floor': math.floor, 'ceil': math.ceil, 'trunc': int}.get(n, round)(c)))

    def sure(self, x, S):
        t = self.it.truth(x, S)
        if t is None:
            raise Unsupported('undecided element')
        return t

    def conv(self, a, k, mode, S, node):
        """discrete convolution (scipy.signal conventions)."""
        it = self.it
        if len(a.shape) != 2 or len(k.shape) != 2:
            raise Unsupported('convolution of other than images')
        (n1, n2), (m1, m2) = a.shape, k.shape
        ea, ek = it.el(a, S), it.el(k, S)
        N1, N2 = n1 + m1 - 1, n2 + m2 - 1
        if mode == 'full':
            r1, r2 = range(N1), range(N2)
        elif mode == 'same':
            o1, o2 = (N1 - n1) // 2, (N2 - n2) // 2
            r1, r2 = range(o1, o1 + n1), range(o2, o2 + n2)
        elif mode == 'valid':
            r1, r2 = range(m1 - 1, n1), range(m2 - 1, n2)
        else:
            raise Bottom('mode')
        out = []
        for i in r1:
            for j in r2:
                t = []
                for p in range(max(0, i - m1 + 1), min(n1, i + 1)):
                    for q in range(max(0, j - m2 + 1), min(n2, j + 1)):
                        x, y = ea[p * n2 + q], ek[(i - p) * m2 + j - q]
                        if isinstance(x, Const) and x.v == 0 or isinstance(y, Const) and y.v == 0:
                            continue
                        t.append(it.binop(ast.Mult(), x, y, S, node))
                out.append(self.total(t, S, node))
        return it.nd(S, out, (len(r1), len(r2)))
