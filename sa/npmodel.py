"""Transfer functions for builtins, numpy, scipy, math, copy and container methods."""
import math
import ast
from .values import (Top, TOP, Const, NONE, TRUE, FALSE, Num, Tup, Ref, Choice, ModV, FuncV, ClassV,
                     Bound, ExtV, ExtMeth, SuperV, ExtObj, HObj, State, EMPTY, Native)
from .grades import G, Bad
from . import poly

CONSTS = {
    'sys.float_info.epsilon': 2.220446049250313e-16, 'numpy.pi': math.pi, 'numpy.inf': float('inf'), 'numpy.nan': float('nan'), 'numpy.e': math.e,
    'numpy.newaxis': None, 'math.pi': math.pi, 'math.e': math.e, 'math.inf': float('inf'), 'math.nan': float('nan'),
    'numpy.Inf': float('inf'), 'numpy.NaN': float('nan'), 'numpy.euler_gamma': 0.5772156649,
    'scipy.pi': math.pi,
}

UNARY = {'exp', 'expm1', 'log', 'log10', 'log2', 'log1p', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh',
         'tanh', 'arcsinh', 'arccosh', 'arctanh', 'sqrt', 'square', 'abs', 'absolute', 'fabs', 'sign', 'reciprocal',
         'sinc', 'cbrt', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'erfi', 'erfinv', 'dawsn',
         'deg2rad', 'rad2deg', 'radians', 'degrees', 'wofz', 'erfcx'}
# same payload as first argument, fresh array
IDENT = {'copy', 'sort', 'flip', 'fliplr', 'flipud', 'roll', 'tile', 'repeat', 'cumsum', 'unique', 'sum', 'nansum', 'mean',
         'nanmean', 'average', 'median', 'nanmedian', 'percentile', 'nanpercentile', 'quantile', 'nan_to_num', 'floor', 'ceil', 'round', 'around', 'rint',
         'trunc', 'diff', 'std', 'rot90', 'nanstd', 'float64', 'float32', 'full_like_', 'ediff1d', 'pad', 'conjugate', 'conj',
         'diag', 'array', 'array_like', 'trace', 'gradient_', 'concatenate_', 'complex128', 'float', 'real_if_close', 'delete',
         'take', 'triu', 'tril', 'resize', 'nan_to_num', 'flatnonzero_'}
# same payload, may alias first argument
VIEW = {'asarray', 'atleast_1d', 'atleast_2d', 'asanyarray', 'ascontiguousarray', 'ravel', 'reshape', 'squeeze',
        'transpose', 'swapaxes', 'moveaxis', 'expand_dims', 'broadcast_to', 'asfarray', 'asfortranarray', 'rollaxis'}
MINMAX = {'maximum', 'minimum', 'fmax', 'fmin'}
REDMM = {'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'ptp'}
PLAIN = {'argmax', 'argmin', 'argsort', 'where1', 'nonzero', 'isnan', 'isinf', 'isfinite', 'any', 'all', 'logical_and',
         'logical_or', 'logical_not', 'logical_xor', 'greater', 'less', 'equal', 'not_equal', 'greater_equal',
         'less_equal', 'isclose', 'allclose', 'array_equal', 'searchsorted', 'digitize', 'shape', 'size', 'ndim', 'alltrue',
         'sometrue', 'count_nonzero', 'isscalar', 'iscomplexobj', 'arange', 'indices', 'isin', 'argwhere', 'in1d',
         'histogram', 'flatnonzero', 'signbit', 'isreal', 'iscomplex', 'tri', 'eye', 'identity', 'lexsort', 'unravel_index',
         'ravel_multi_index', 'bincount', 'issubdtype', 'array_equiv'}
PRODUCT = {'dot', 'inner', 'outer', 'matmul', 'vdot', 'multiply', 'tensordot', 'cross', 'kron', 'convolve', 'einsum2'}


def real_of(p):
    return G(p.u, p.p, p.w, p.sym, p.deps, False) if p.cx else p


def strip(path):
    return path.rsplit('.', 1)[-1]


class NP:
    def __init__(self, it):
        self.it = it

    # ---------------------------------------------------------------- attributes
    def ext_attr(self, path):
        if poly.ML and path in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return Num(self.it.D.mk(sym=poly.mlval.pi()), EMPTY, 's')
        if path in CONSTS:
            return Const(CONSTS[path])
        return ExtV(path)

    def num_attr(self, o, a, S, node):
        it = self.it
        D = it.D
        if a in ('T', 'flat'):
            return o
        if a in ('real', 'imag') and poly.ML:
            return Num(self.ml(a, o.pay), o.own, o.kind)
        if a == 'real':
            return Num(real_of(o.pay), o.own, o.kind)
        if a == 'imag':
            p = real_of(D.mul(o.pay, D.const(1j), it.where(node)))
            return Num(p, o.own, o.kind)
        if a == 'shape':
            return Top(EMPTY, EMPTY, D.plain)
        if a in ('size', 'ndim'):
            return Num(D.plain, EMPTY, 's')
        if a in ('dtype',):
            return TOP
        if a == 'value':
            return Num(o.pay, EMPTY, o.kind)
        return ExtMeth(o, a)

    @staticmethod
    def ml(part, p):
        s = None if p.sym is None else getattr(poly.mlval, {'conjugate': 'conj'}.get(part, part))(poly.mlval.lift(p.sym))
        return G(p.u, p.p, p.w, s, p.deps, part in ('conj', 'conjugate'))

    @staticmethod
    def nosym(p):
        return p if p.sym is None or p.sym.is_const() and p.sym.is_zero() else G(p.u, p.p, p.w, None, p.deps, p.cx)

    # ---------------------------------------------------------------- helpers
    def alld(self, args, kw, S):
        d = EMPTY
        for x in list(args) + list(kw.values()):
            d |= self.it.deps(x, S)
        return d

    def top(self, args, kw, S):
        return Top(self.alld(args, kw, S), EMPTY, self.it.inv(args, kw, S))

    def deep(self, v, S, memo=None):
        """copy.deepcopy: fresh containers, no aliasing."""
        it = self.it
        memo = {} if memo is None else memo
        if isinstance(v, Num):
            return Num(v.pay, EMPTY, v.kind)
        if isinstance(v, Top):
            return Top(v.deps)
        if isinstance(v, Tup):
            return Tup([self.deep(x, S, memo) for x in v.items], v.arr)
        if isinstance(v, Choice):
            return Choice([self.deep(x, S, memo) for x in v.alts])
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            h = it.hget(S, v)
            r = it.alloc(S, h.rep(own=EMPTY, wr=EMPTY))
            memo[v.id] = r
            if h.kind in ('list', 'set'):
                S.heap[r.id] = h.rep(own=EMPTY, items=None if h.items is None else tuple(self.deep(x, S, memo) for x in h.items),
                                     summ=None if h.summ is None else self.deep(h.summ, S, memo))
            else:
                S.heap[r.id] = h.rep(own=EMPTY, wr=EMPTY, items={k: self.deep(x, S, memo) for k, x in h.items.items()},
                                     summ=None if h.summ is None else self.deep(h.summ, S, memo))
            return r
        return v

    def shallow(self, v, S):
        it = self.it
        if isinstance(v, Ref):
            h = it.hget(S, v)
            return it.alloc(S, h.rep(own=EMPTY, wr=EMPTY, items=dict(h.items) if isinstance(h.items, dict) else h.items))
        if isinstance(v, Num):
            return Num(v.pay, EMPTY, v.kind)
        if isinstance(v, Choice):
            return Choice([self.shallow(x, S) for x in v.alts])
        if isinstance(v, Top):
            return Top(v.deps)
        return v

    def own_of_elements(self, v, S):
        it = self.it
        if isinstance(v, Ref):
            h = it.hget(S, v)
            return EMPTY
        return it.owners(v, S)

    def to_array(self, v, S, node):
        """np.array / np.asarray semantics on structure: keep small heterogeneous sequences."""
        it = self.it
        if isinstance(v, Num):
            return v
        if isinstance(v, Const):
            return v
        if isinstance(v, Tup) or isinstance(v, Ref):
            items, summ = it.iterate(v, S, node)
            if items is not None and items:
                conv = [self.to_array(x, S, node) for x in items]
                pays = [it.pay(x, S) for x in conv if not isinstance(x, Tup)]
                if any(isinstance(x, Tup) for x in conv):
                    return Tup(conv, True) if len(conv) <= it.max_arr else Num(it.pay(Tup(conv), S), EMPTY, 'a')
                if any(isinstance(x, Const) and isinstance(x.v, str) for x in conv):
                    return Tup(conv, True)
                if len(conv) <= it.max_arr:
                    return Tup([x if isinstance(x, (Num, Const)) else Num(it.pay(x, S)) for x in conv], True)
                return Num(it.pay(Tup(conv), S), EMPTY, 'a')
            if items is not None:
                return Num(it.D.zero, EMPTY, 'a')
            return Num(it.pay(summ if summ is not None else TOP, S), EMPTY, 'a')
        if isinstance(v, Choice):
            r = None
            for a in v.alts:
                if isinstance(a, Const) and a.v is None:
                    continue
                x = self.to_array(a, S, node)
                r = x if r is None else it.join(r, x, S, node)
            return r if r is not None else TOP
        if isinstance(v, Top):
            return v
        return Num(it.pay(v, S), EMPTY, 'a')

    def mapnum(self, v, S, f):
        """apply payload function elementwise."""
        it = self.it
        if isinstance(v, Tup):
            return Tup([self.mapnum(x, S, f) for x in v.items], True)
        if isinstance(v, Choice):
            r = None
            for a in v.alts:
                if isinstance(a, Const) and a.v is None:
                    continue
                x = self.mapnum(a, S, f)
                r = x if r is None else it.join(r, x, S)
            return r if r is not None else TOP
        if isinstance(v, Ref) and it.hget(S, v).kind == 'obj':
            return Top(it.deps(v, S))
        if isinstance(v, (ExtObj, ExtMeth)):
            return Top(it.deps(v, S))
        return Num(f(it.pay(v, S)), EMPTY, it.kind_of(v))

    def reduce(self, v, S, node, axis=None):
        """sum/mean etc. over elements."""
        it = self.it
        if isinstance(v, Tup):
            r = None
            for x in v.items:
                if isinstance(x, Tup):
                    x = self.reduce(x, S, node)
                r = x if r is None else it.binop(ast.Add(), r, x, S, node)
            return r if r is not None else Const(0)
        if isinstance(v, Ref):
            items, summ = it.iterate(v, S, node)
            if items is not None:
                return self.reduce(Tup(items), S, node)
            return summ if it.is_numlike(summ) else Num(it.pay(v, S))
        if isinstance(v, Num):
            p = v.pay
            if p.sym is not None or any(not (isinstance(x, poly.Poly) and x.is_zero()) for x in p.w):
                w = tuple('T' if isinstance(x, poly.Poly) and not x.is_zero() else x for x in p.w)
                p = G(p.u, p.p, w, None, p.deps, p.cx)
            return Num(p, EMPTY, '?')
        return Num(it.pay(v, S), EMPTY, '?')

    # ---------------------------------------------------------------- external calls
    def call_ext(self, path, args, kw, S, node, su=None, ku=None):
        it = self.it
        D = it.D
        w = it.where(node)
        if path.startswith('builtins.'):
            return self.builtin(path[9:], args, kw, S, node, su, ku)
        n = strip(path)
        root = path.split('.')[0]
        if 'out' in kw:
            o = it.owners(kw['out'], S)
            if o:
                it.event('mut', tuple(sorted(o)), 'out= argument', node)
        if path in ('copy.deepcopy',):
            return self.deep(args[0], S) if args else TOP
        if path == 'copy.copy':
            return self.shallow(args[0], S) if args else TOP
        if root in ('numpy', 'math', 'scipy', 'cmath'):
            r = self.numeric(path, n, args, kw, S, node, w)
            if r is not None:
                return r
        if path in ('itertools.product', 'itertools.combinations', 'itertools.chain'):
            return self.top(args, kw, S)
        if path.startswith('functools.partial'):
            return ExtObj('functools.partial', tuple(args), kw, self.alld(args, kw, S))
        it.unknown_calls[path] = it.unknown_calls.get(path, 0)
        d = self.alld(args, kw, S)
        if n[:1].isupper() or path.startswith('astropy'):
            return ExtObj(path, tuple(args), kw, d)
        return Top(d, EMPTY, it.inv(args, kw, S))

    def numeric(self, path, n, args, kw, S, node, w):
        it = self.it
        D = it.D
        if n in ('int64', 'int32', 'intp', 'int_'):
            return self.builtin('int', args, kw, S, node)
        if not args and n not in ('zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'array', 'interp', 'eye'):
            if path.startswith('numpy.random'):
                it.event('random', path, None, node)
                return TOP
            if kw and n in UNARY | VIEW | IDENT:
                args = list(kw.values())
            else:
                return None
        if path.startswith('numpy.random'):
            it.event('random', path, None, node)
            return self.top(args, kw, S)
        if path.startswith('numpy.fft') or path.startswith('scipy.fft'):
            return Num(it.pay(args[0], S), EMPTY, 'a') if args else TOP
        if path.startswith('numpy.linalg'):
            if n == 'norm':
                return self.mapnum(args[0], S, lambda p: self.nosym(D.func1('abs', p, w))) if not isinstance(args[0], Tup) else Num(self.nosym(D.func1('abs', it.pay(args[0], S), w)))
            if n == 'inv':
                m = self.matrix(args[0])
                if m and len(m) == 2 and len(m[0]) == 2:
                    bi = lambda op, x, y: it.binop(op, x, y, S, node)
                    (a, b), (c, d) = m
                    det = bi(ast.Sub(), bi(ast.Mult(), a, d), bi(ast.Mult(), b, c))
                    neg = lambda x: it.unop(ast.USub(), x, S, node)
                    return Tup([Tup([bi(ast.Div(), x, det) for x in r], True) for r in ((d, neg(b)), (neg(c), a))], True)
                return Num(self.nosym(D.mul(D.one, it.pay(args[0], S), w, div=True)), EMPTY, 'a')
            return self.top(args, kw, S)
        if n in ('hermval', 'lagval', 'legval', 'chebval', 'polyval') and path.startswith('numpy.poly') and len(args) > 1:
            x, c = it.pay(args[0], S), it.pay(args[1], S)
            if n != 'polyval':
                return Num(D.mul(D.opaque([x], w), G(c.u, c.p, c.w, None, c.deps), w), EMPTY, it.kind_of(args[0]))
            return Num(D.top_of([x, c]), EMPTY, it.kind_of(args[0]))
        if path.startswith('scipy.special') and n not in UNARY:
            if n in ('hyp2f1', 'gamma', 'gammainc', 'gammaincc', 'hyp1f1', 'hyperu', 'beta', 'betainc', 'gammaln', 'j0', 'j1', 'jn', 'jv', 'k0', 'k1', 'kn',
                     'kv', 'iv', 'i0', 'i1', 'zeta', 'lambertw', 'expi', 'exp1', 'expn', 'ellipk', 'ellipe', 'eval_hermite',
                     'hermite', 'factorial', 'comb', 'erfcinv', 'hyp0f1', 'ellipkinc', 'ellipeinc', 'ellipk', 'gammasgn', 'binom', 'factorial2', 'betainc', 'exp1', 'spence', 'psi', 'digamma', 'logsumexp', 'gammaincinv'):
                if n == 'hermite':
                    return TOP
                ps = [it.pay(a, S) for a in args]
                p = D.opaque(ps, w)
                if poly.ML and all(q.sym is not None for q in ps) and not any(isinstance(a, Tup) for a in args):
                    p = G(p.u, p.p, p.w, poly.opaque(n, *[q.sym for q in ps]), p.deps, p.cx)
                return Num(p, EMPTY, it.kind_of(*args))
            return None
        if path.startswith('scipy.integrate'):
            return self.integrate(n, args, kw, S, node, w)
        if path.startswith('scipy.interpolate'):
            return ExtObj(path, tuple(args), kw, self.alld(args, kw, S))
        if path.startswith('scipy.ndimage') or path.startswith('scipy.signal'):
            if n in ('shift', 'rotate', 'zoom', 'gaussian_filter', 'convolve', 'fftconvolve', 'convolve1d', 'uniform_filter', 'laplace', 'map_coordinates', 'interpolation'):
                if n in ('convolve', 'fftconvolve', 'convolve1d'):
                    return Num(self.nosym(D.mul(it.pay(args[0], S), it.pay(args[1], S), w)), EMPTY, 'a')
                p = self.nosym(it.pay(args[0], S))
                return Num(D.withdeps(p, self.alld(args, kw, S)), EMPTY, 'a')
            return None
        if path.startswith('scipy.') and n not in UNARY:
            return None
        if n in UNARY and (path.count('.') == 1 or path.startswith('scipy.special')):
            a = args[0]
            if poly.ML and isinstance(a, Const) and n not in ('abs', 'absolute', 'fabs', 'square', 'reciprocal', 'sign'):
                pass
            elif isinstance(a, Const) and isinstance(a.v, (int, float)) and not isinstance(a.v, bool) or isinstance(a, Const) and isinstance(a.v, bool):
                try:
                    f = getattr(math, {'absolute': 'fabs', 'abs': 'fabs', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan',
                                       'arcsinh': 'asinh', 'arccosh': 'acosh', 'arctanh': 'atanh', 'deg2rad': 'radians', 'rad2deg': 'degrees'}.get(n, n))
                    return Const(f(a.v), a.deps)
                except Exception:
                    pass
            return self.mapnum(a, S, lambda p: D.func1(n, p, w))
        if n in ('float64', 'float32', 'float', 'complex128') and args and isinstance(args[0], Const) and not isinstance(args[0].v, str):
            return args[0]
        if n == 'array' or n == 'asarray' or n in ('asanyarray', 'atleast_1d', 'asfarray', 'ascontiguousarray'):
            a = args[0] if args else kw.get('object', TOP)
            r = self.to_array(a, S, node)
            nocopy = n != 'array' or (isinstance(kw.get('copy'), Const) and kw['copy'].v is False)
            if n in ('atleast_1d',) and isinstance(r, Num) and r.kind == 's':
                return Tup([r], True)
            if n in ('atleast_1d',) and isinstance(r, Const):
                return Tup([r], True)
            if isinstance(r, Num):
                own = r.own if nocopy else EMPTY
                return Num(r.pay, own, 'a' if not (r.kind == 's' and n != 'atleast_1d') else r.kind)
            if isinstance(r, Top):
                return Top(r.deps, r.own if nocopy else EMPTY)
            return r
        if n in VIEW:
            a = args[0]
            if n == 'transpose' and isinstance(a, (Tup, Ref)):
                return self.transposed(self.to_array(a, S, node), S) if len(args) == 1 and not kw else Num(it.pay(a, S), EMPTY, 'a')
            if isinstance(a, Num):
                return Num(a.pay, a.own, 'a')
            if isinstance(a, Tup) and n in ('ravel', 'atleast_2d', 'squeeze', 'reshape'):
                return Num(it.pay(a, S), EMPTY, 'a') if any(isinstance(x, Tup) for x in a.items) else a
            if isinstance(a, Top):
                return Top(a.deps, a.own)
            r = self.to_array(a, S, node)
            return r
        if poly.ML and n in ('imag', 'real', 'conj', 'conjugate') and args:
            return self.mapnum(args[0], S, lambda p: self.ml(n, p))
        if poly.ML and n == 'angle' and args:
            return self.mapnum(args[0], S, lambda p: G((), (), (), poly.opaque('angle', p.sym), p.deps))
        if poly.ML and n in ('isnan', 'isinf', 'isclose') and args and not isinstance(args[0], (Tup, Ref)):
            return FALSE
        if poly.ML and n == 'isfinite' and args and not isinstance(args[0], (Tup, Ref)):
            return TRUE
        if poly.ML and n in ('any', 'all', 'logical_and', 'logical_or', 'logical_not') and args:
            xs = [it.truth(a, S) if isinstance(a, Const) else None for a in args]
            if None not in xs:
                return Const({'any': any(xs), 'all': all(xs), 'logical_and': all(xs), 'logical_or': any(xs), 'logical_not': not xs[0]}[n], self.alld(args, {}, S))
        if poly.ML and n == 'where' and args and it.mask_of(args[0]) is not None:
            m = it.mask_of(args[0])
            if len(args) == 3:
                v = args[1] if m else args[2]
                if it.is_numlike(v, S) and not isinstance(v, Tup):
                    return Num(D.withdeps(it.pay(v, S), it.deps(args[0], S)), EMPTY, it.kind_of(*args))
                return v
            return Tup([args[0]])
        if poly.ML and n == 'select' and len(args) >= 2:
            cs, vs = it.iterate(args[0], S, node)[0], it.iterate(args[1], S, node)[0]
            if cs is not None and vs is not None and all(it.mask_of(c) is not None for c in cs):
                for c, v in zip(cs, vs):
                    if it.mask_of(c):
                        return Num(it.pay(v, S), EMPTY, 'a')
                return Num(it.pay(args[2] if len(args) > 2 else kw.get('default', Const(0)), S), EMPTY, 'a')
        if poly.ML and n == 'piecewise' and len(args) >= 3:
            cs, vs = it.iterate(args[1], S, node)[0], it.iterate(args[2], S, node)[0]
            if cs is not None and vs is not None and all(it.mask_of(c) is not None for c in cs):
                pick = None
                for c, v in zip(cs, vs):
                    if it.mask_of(c):
                        pick = v
                if pick is None:
                    pick = vs[len(cs)] if len(vs) > len(cs) else Const(0)
                if isinstance(pick, (FuncV, Bound, ClassV, Native)):
                    pick = it.call(pick, [args[0]] + list(args[3:]), kw, S, node)
                return Num(it.pay(pick, S), EMPTY, 'a')
        if n == 'imag':
            return self.mapnum(args[0], S, lambda p: real_of(D.mul(p, D.const(1j), w)))
        if n == 'real':
            return self.mapnum(args[0], S, real_of)
        if n in ('isnan', 'isinf') and args:
            from .engine import EQMASK
            r = it.bool_unknown(args[0], S=S)
            r.pay = G(r.pay.u, r.pay.p, r.pay.w, EQMASK, r.pay.deps)
            return r
        if n == 'angle':
            p = it.pay(args[0], S)
            return Num(D.arctan2(real_of(D.mul(p, D.const(1j), w)), real_of(p), w), EMPTY, it.kind_of(args[0]))
        if n in ('sum', 'nansum', 'mean', 'average', 'nanmean', 'median', 'nanmedian', 'std', 'nanstd', 'percentile', 'quantile', 'trace'):
            if n in ('percentile', 'quantile'):
                return Num(D.withdeps(it.pay(args[0], S), EMPTY), EMPTY)
            r = self.reduce(args[0], S, node)
            if n == 'average' and 'weights' in kw and isinstance(r, Num):
                r = Num(D.withdeps(r.pay, it.deps(kw['weights'], S)), EMPTY, r.kind)
            return r
        if n == 'var':
            return Num(D.pow(it.pay(args[0], S), D.const(2), w), EMPTY)
        if n == 'prod':
            return Num(D.top_of([it.pay(args[0], S)]), EMPTY)
        if n in IDENT:
            a = args[0]
            if n == 'copy':
                r = self.to_array(a, S, node)
                return Num(r.pay, EMPTY, r.kind) if isinstance(r, Num) else (Top(r.deps) if isinstance(r, Top) else r)
            if isinstance(a, Tup) and n in ('nan_to_num', 'floor', 'ceil', 'round', 'around', 'conj', 'conjugate'):
                if poly.ML and n != 'nan_to_num':
                    return Tup([self.numeric(path, n, [x], {}, S, node, w) for x in a.items], a.arr)
                return a
            p = it.pay(a, S)
            if poly.ML and n in ('floor', 'ceil', 'rint', 'trunc', 'round', 'around') and len(args) == 1 and isinstance(p.sym, poly.mlval.Val) and p.sym.c is not None:
                return Const({'floor': math.floor, 'ceil': math.ceil, 'trunc': int}.get(n, round)(p.sym.c))
            if n == 'diff':
                p = D.add(p, p, w, sub=True)
                p = G(it.pay(a, S).u, it.pay(a, S).p, tuple(poly.ZERO if isinstance(x, poly.Poly) else x for x in p.w), None, p.deps)
            if n in ('repeat', 'tile') and len(args) > 1:
                pass
            if n in ('floor', 'ceil', 'round', 'around', 'rint', 'trunc', 'cumsum'):
                p = G(p.u, p.p, tuple('T' if isinstance(x, poly.Poly) and not x.is_zero() else x for x in p.w), None, p.deps)
            if n in ('sort', 'flip', 'fliplr', 'flipud', 'roll', 'unique', 'rot90', 'pad', 'diag', 'delete', 'take', 'triu', 'tril', 'resize', 'percentile', 'nanpercentile'):
                p = self.nosym(p)
            return Num(p, EMPTY, it.kind_of(a))
        if n in MINMAX:
            ps = [it.pay(a, S) for a in args[:2]]
            if poly.ML and any(isinstance(a, Tup) for a in args[:2]):
                n_ = max(len(a.items) for a in args[:2] if isinstance(a, Tup))
                cols = [a.items if isinstance(a, Tup) else (a,) * n_ for a in args[:2]]
                if len(cols[0]) == len(cols[1]):
                    return Tup([self.numeric(path, n, list(c), {}, S, node, w) for c in zip(*cols)], True)
            return Num(D.minmax(ps, w, n in ('maximum', 'fmax')), EMPTY, it.kind_of(*args[:2]))
        if n in REDMM:
            if n in ('max', 'min', 'amax', 'amin') and len(args) == 1 and not kw and isinstance(args[0], (Tup, Ref)):
                xs, summ = it.iterate(args[0], S, node)
                if xs and summ is None and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in xs):
                    dd = EMPTY
                    for x in xs:
                        dd |= x.deps
                    return Const((max if n in ('max', 'amax') else min)(x.v for x in xs), dd)
            p = it.pay(args[0], S)
            return Num(D.minmax([p], w), EMPTY)
        if n == 'clip':
            ps = [it.pay(a, S) for a in list(args[:3]) + [kw[k] for k in ('a_min', 'a_max', 'min', 'max') if k in kw]
                  if not (isinstance(a, Const) and a.v is None)]
            if poly.ML:
                lo = args[1] if len(args) > 1 else kw.get('a_min', kw.get('min', NONE))
                hi = args[2] if len(args) > 2 else kw.get('a_max', kw.get('max', NONE))
                p = it.pay(args[0], S)
                if not (isinstance(lo, Const) and lo.v is None):
                    p = D.minmax([p, it.pay(lo, S)], w, True)
                if not (isinstance(hi, Const) and hi.v is None):
                    p = D.minmax([p, it.pay(hi, S)], w, False)
                return Num(p, EMPTY, it.kind_of(args[0]))
            return Num(D.minmax(ps, w), EMPTY, it.kind_of(args[0]))
        if n in ('where',):
            if len(args) == 3:
                a, b = it.pay(args[1], S), it.pay(args[2], S)
                if it.is_eqmask(args[0]) and (isinstance(args[1], Const) or isinstance(args[2], Const)):
                    p = it.special_join(a, b, isinstance(args[1], Const))
                    return Num(D.withdeps(p, it.deps(args[0], S)), EMPTY, it.kind_of(*args))
                olds = D.wstrict
                D.wstrict = it.strict_cond(args[0], S)
                p = D.join(a, b, w)
                D.wstrict = olds
                return Num(D.withdeps(p, it.deps(args[0], S)), EMPTY, it.kind_of(*args))
            return Tup([Num(D.withdeps(D.plain, it.deps(args[0], S)), EMPTY, 'a')])
        if n in ('select', 'piecewise', 'choose'):
            if n == 'select':
                p = it.pay(args[1], S)
                if len(args) > 2:
                    p = D.join(p, it.pay(args[2], S), w)
                return Num(p, EMPTY, 'a')
            return self.top(args, kw, S)
        if n in ('zeros', 'zeros_like'):
            return Num(D.zero, EMPTY, 's' if n == 'zeros_like' and isinstance(args[0], Num) and args[0].kind == 's' else 'a')
        if n in ('empty', 'empty_like'):
            return Num(D.zero, EMPTY, 'a')
        if n in ('ones', 'ones_like'):
            if n == 'ones' and isinstance(args[0], Const) and type(args[0].v) is int and 0 < args[0].v <= 24:
                return Tup([Const(1.)] * args[0].v, True)
            if n == 'ones' and args and isinstance(args[0], Tup):
                sh = self.const_items(args[0], S)
                if sh is not None and len(sh) == 1 and type(sh[0]) is int and 0 < sh[0] <= 24:
                    return Tup([Const(1.)] * sh[0], True)
            return Num(G(D.one.u, D.one.p, D.one.w, poly.ONE if poly.ML else None), EMPTY, 'a')
        if n in ('full', 'full_like'):
            v = args[1] if len(args) > 1 else kw.get('fill_value', TOP)
            return Num(it.pay(v, S), EMPTY, 'a')
        if n in ('linspace', 'logspace', 'geomspace'):
            if n == 'logspace':
                return Num(D.top_of([it.pay(a, S) for a in args[:2]]), EMPTY, 'a')
            ps = [it.pay(a, S) for a in args[:2]] + [it.pay(kw[k], S) for k in ('start', 'stop') if k in kw]
            p = it.softjoin(ps[0], ps[1]) if len(ps) > 1 else (ps[0] if ps else D.top)
            ret = kw.get('retstep')
            v = Num(G(p.u, p.p, p.w, None, p.deps, p.cx), EMPTY, 'a')
            return v
        if n == 'arange':
            if args:
                p = it.pay(args[0], S)
                for a in args[1:]:
                    p = it.softjoin(p, it.pay(a, S))
                return Num(G(p.u, p.p, p.w, None, p.deps, p.cx), EMPTY, 'a')
            return Num(D.plain, EMPTY, 'a')
        if n == 'meshgrid':
            return Tup([Num(it.pay(a, S), EMPTY, 'a') for a in args])
        if n in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'column_stack', 'dstack', 'block', 'row_stack'):
            xs = args[:2] if n == 'append' else args[:1]
            if n != 'append':
                items, summ = it.iterate(xs[0], S, node)
                if items is not None:
                    if n in ('vstack', 'stack') and 0 < len(items) <= 16:
                        return Tup([self.to_array(x, S, node) for x in items], True)
                    xs = items
                elif summ is not None:
                    xs = [summ]
            p = None
            for x in xs:
                q = it.pay(x, S)
                p = q if p is None else it.softjoin(p, q)
            return Num(p if p is not None else D.zero, EMPTY, 'a')
        if n == 'insert':
            p = it.softjoin(it.pay(args[0], S), it.pay(args[2], S)) if len(args) > 2 else it.pay(args[0], S)
            return Num(p, EMPTY, 'a')
        if n in ('dot', 'matmul') and len(args) == 2:
            r = self.matprod(args[0], args[1], S, node)
            if r is not None:
                return r
        if n in PRODUCT:
            p = D.mul(it.pay(args[0], S), it.pay(args[1], S), w)
            return Num(p if n == 'multiply' or it.kind_of(*args[:2]) == 's' else self.nosym(p), EMPTY, it.kind_of(*args[:2]))
        if n == 'einsum':
            p = None
            for a in args[1:]:
                q = it.pay(a, S)
                p = q if p is None else D.mul(p, q, w)
            return Num(self.nosym(p) if p is not None else D.top, EMPTY, 'a')
        if n in ('add', 'subtract', 'divide', 'true_divide', 'power', 'pow', 'float_power'):
            op = {'add': ast.Add, 'subtract': ast.Sub, 'divide': ast.Div, 'true_divide': ast.Div}.get(n, ast.Pow)()
            return it.binop(op, args[0], args[1], S, node)
        if n == 'negative':
            return it.unop(ast.USub(), args[0], S, node)
        if n in ('mod', 'fmod', 'remainder'):
            return it.binop(ast.Mod(), args[0], args[1], S, node)
        if n in ('arctan2', 'atan2'):
            a, b = args[0], args[1]
            return Num(D.arctan2(it.pay(a, S), it.pay(b, S), w), EMPTY, it.kind_of(a, b))
        if n == 'hypot':
            p = D.add(D.pow(it.pay(args[0], S), D.const(2), w), D.pow(it.pay(args[1], S), D.const(2), w), w)
            return Num(D.func1('sqrt', p, w), EMPTY, it.kind_of(*args[:2]))
        if n == 'interp':
            fp = args[2] if len(args) > 2 else kw.get('fp', TOP)
            p = it.pay(fp, S)
            D.c_add
            return Num(D.withdeps(G(p.u, p.p, p.w, None, p.deps, p.cx), self.alld(args[:2], {}, S)), EMPTY, it.kind_of(args[0]) if args else 'a')
        if n in ('trapz', 'trapezoid', 'simps', 'simpson'):
            p = it.pay(args[0], S)
            x = args[1] if len(args) > 1 else kw.get('x', kw.get('dx'))
            if x is not None:
                q = it.pay(x, S)
                q = G(q.u, q.p, (poly.ZERO,) * D.nw, None, q.deps)
                p = D.mul(p, q, w)
            return Num(self.nosym(p), EMPTY)
        if n in ('polyval',):
            return Num(D.top_of([it.pay(a, S) for a in args]), EMPTY)
        if n in ('broadcast_arrays',):
            return self.it.new_list(S, [Num(it.pay(a, S), it.owners(a, S), 'a') for a in args])
        if n in ('gradient',):
            return self.top(args, kw, S)
        if n in ('array_split', 'split'):
            return it.new_list(S, None, Num(it.pay(args[0], S), it.owners(args[0], S), 'a'))
        if n in ('vectorize',):
            return args[0]
        if n == 'argsort' and args:
            xs = self.const_items(args[0], S)
            if xs is not None:
                return Tup([Const(i) for i in sorted(range(len(xs)), key=lambda i: xs[i])], True)
        if n == 'sort' and args:
            xs = self.const_items(args[0], S)
            if xs is not None:
                return Tup([Const(v) for v in sorted(xs)], True)
        if n in PLAIN:
            if n == 'isscalar':
                if isinstance(args[0], Num) and args[0].kind == 's' or isinstance(args[0], Const):
                    return TRUE
            if n == 'shape':
                return Top(EMPTY, EMPTY, D.plain)
            d = self.alld(args, kw, S)
            if n in ('nonzero', 'unravel_index'):
                return Top(d)
            if n == 'histogram':
                return Top(d)
            if n == 'indices':
                return Top(d)
            if n == 'bincount':
                wt = kw.get('weights', args[1] if len(args) > 1 else None)
                if wt is not None:
                    return Num(D.withdeps(it.pay(wt, S), d), EMPTY, 'a')
            return Num(D.withdeps(D.plain, d), EMPTY, it.kind_of(*args) if args else 'a')
        if n in ('fill_diagonal', 'put', 'copyto', 'place', 'putmask'):
            o = it.owners(args[0], S)
            if o:
                it.event('mut', tuple(sorted(o)), 'np.%s' % n, node)
            return NONE
        if n in ('errstate', 'seterr', 'set_printoptions'):
            return NONE
        if n in ('factorial', 'comb', 'gcd'):
            if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
                try:
                    return Const(getattr(math, n)(*[a.v for a in args]))
                except Exception:
                    return TOP
            return Num(D.opaque([it.pay(a, S) for a in args], w), EMPTY, 's')
        return None

    def integrate(self, n, args, kw, S, node, w):
        it = self.it
        D = it.D
        if n == 'quad':
            args = list(args)
            kw = dict(kw)
            for i, k in enumerate(('func', 'a', 'b')):
                if k in kw and len(args) == i:
                    args.append(kw.pop(k))
        if n == 'quad' and len(args) >= 3 and poly.ML:
            r = self.ml_quad(args, kw, S, node)
            if r is not None:
                return r
        if n == 'quad' and len(args) >= 3:
            a, b = it.pay(args[1], S), it.pay(args[2], S)
            p = it.softjoin(a, b)
            x = Num(G(p.u, p.p, p.w, None, p.deps, p.cx), EMPTY, 's')
            extra = kw.get('args', args[3] if len(args) > 3 else None)
            fa = [x]
            if extra is not None:
                items, summ = it.iterate(extra, S, node)
                if items is None:
                    return Tup([TOP, TOP])
                fa += items
            v = it.call(args[0], fa, {}, S, node)
            dx = G(p.u, p.p, (poly.ZERO,) * D.nw, None, p.deps)
            r = D.mul(it.pay(v, S), dx, w)
            return Tup([Num(r, EMPTY, 's'), Num(r, EMPTY, 's')])
        if n in ('trapz', 'simps', 'simpson', 'trapezoid'):
            return self.numeric('numpy.trapz', 'trapz', args, kw, S, node, w)
        if n in ('cumtrapz', 'cumulative_trapezoid'):
            return self.numeric('numpy.trapz', 'trapz', args, kw, S, node, w)
        # callables handed to unknown integrators: still walk them for effects
        return self.top(args, kw, S)

    def ml_quad(self, args, kw, S, node):
        """integral of f over [a, b] = F(b) - F(a) with F an uninterpreted primitive of f: identified by the value of f at a generic point, F' = f."""
        it = self.it
        ml = poly.mlval
        extra = kw.get('args', args[3] if len(args) > 3 else None)
        more = []
        if extra is not None:
            more, _ = it.iterate(extra, S, node)
            if more is None:
                return None

        def f(v):
            S2 = S.copy()
            r = it.call(args[0], [Num(it.D.mk(sym=v), EMPTY, 's')] + list(more), {}, S2, node)
            q = it.pay(r, S2).sym
            return None if q is None else ml.lift(q)
        ends = [it.pay(x, S).sym for x in args[1:3]]
        if any(e is None for e in ends):
            return None
        probe = f(ml.symbol('<integration variable>', True))
        if probe is None or isinstance(probe, ml.Cx) or not isinstance(probe.j, int):
            return None
        key = 'quad:%r' % (probe.key(),)
        vals = []
        for e in ends:
            e = ml.lift(e)
            if isinstance(e, ml.Cx):
                return None
            if e.c is not None and (e.c == 0 or abs(e.c) >= 10 ** 6):
                vals.append(ml.hashed(key + str(e.c), [ml.const(1)]) if e.c else ml.const(0))
                continue
            vals.append(ml.hashed(key, [e], probe.irr, [f]))
        if any(v is None for v in vals):
            return None
        r = Num(it.D.mk(sym=ml.sub(vals[1], vals[0]), deps=it.pay(args[1], S).deps | it.pay(args[2], S).deps), EMPTY, 's')
        return Tup([r, Num(it.D.mk(sym=None), EMPTY, 's')])

    # ---------------------------------------------------------------- builtins
    def isinstance_(self, v, c, S):
        it = self.it
        if isinstance(c, Tup):
            ts = [self.isinstance_(v, x, S) for x in c.items]
            if any(t is True for t in ts):
                return True
            if all(t is False for t in ts):
                return False
            return None
        if isinstance(v, Choice):
            ts = {self.isinstance_(a, c, S) for a in v.alts}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(c, ClassV):
            if isinstance(v, Ref):
                h = it.hget(S, v)
                return h.kind == 'obj' and h.cls.subclass_of(c)
            if isinstance(v, (Const, Num, Tup)):
                return False
            return None
        if isinstance(c, ExtV):
            n = strip(c.path)
            if isinstance(v, Const):
                x = v.v
                if n == 'str':
                    return isinstance(x, str)
                if n == 'bool':
                    return isinstance(x, bool)
                if n == 'int':
                    return isinstance(x, int)
                if n == 'float':
                    return isinstance(x, float)
                if n in ('list', 'dict', 'tuple', 'ndarray', 'set'):
                    return False
                if n == 'NoneType':
                    return x is None
                if n in ('integer', 'int64', 'int32') and (isinstance(x, (bool, str, float)) or x is None):
                    return False
                if n in ('floating', 'float64', 'float32') and (isinstance(x, (bool, str, int)) or x is None):
                    return False
                return None
            if isinstance(v, Num):
                if n in ('str', 'dict', 'NoneType', 'set'):
                    return False
                if n in ('list', 'tuple'):
                    return False if v.kind in ('s', 'a') else None
                if poly.ML and v.kind in ('s', 'a'):
                    if n == 'ndarray':
                        return v.kind == 'a'
                    if n in ('float', 'number', 'Number', 'Real', 'floating', 'float64'):
                        return v.kind == 's'
                    if n in ('int', 'integer', 'complex', 'bool', 'bool_', 'int64'):
                        return False
                if n == 'ndarray':
                    return {'s': False}.get(v.kind)
                if n in ('int', 'float', 'complex', 'number', 'Number', 'Real'):
                    return {'a': False}.get(v.kind)
                if n == 'bool':
                    return None
                return None
            if isinstance(v, Tup):
                if v.arr:
                    return {'ndarray': True, 'list': False, 'tuple': False, 'str': False, 'dict': False, 'int': False, 'float': False}.get(n)
                return {'tuple': True, 'list': False, 'str': False, 'dict': False, 'ndarray': False, 'int': False, 'float': False, 'bool': False, 'bool_': False,
                        'integer': False, 'floating': False, 'number': False}.get(n)
            if isinstance(v, Ref):
                k = it.hget(S, v).kind
                if n in ('list', 'dict', 'set'):
                    return k == n
                if n in ('str', 'int', 'float', 'tuple', 'ndarray', 'bool', 'bool_', 'integer', 'floating', 'number'):
                    return False
                return None
            if isinstance(v, (FuncV, ClassV, Bound)):
                return False
        return None

    def builtin(self, n, args, kw, S, node, su=None, ku=None):
        it = self.it
        D = it.D
        a = args[0] if args else None
        if n == 'len':
            if isinstance(a, Choice):
                vals = []
                for x in a.alts:
                    if isinstance(x, Const) and x.v is None:
                        continue
                    try:
                        vals.append(self.builtin('len', [x], {}, S, node))
                    except Exception:
                        vals.append(Num(D.plain, EMPTY, 's'))
                r = None
                for v in vals:
                    r = v if r is None else it.join(r, v, S, node)
                return r if r is not None else TOP
            if isinstance(a, Tup):
                return Const(len(a.items))
            if isinstance(a, Const) and isinstance(a.v, str):
                return Const(len(a.v))
            if isinstance(a, Ref):
                h = it.hget(S, a)
                if h.kind == 'obj':
                    f, _ = h.cls.lookup('__len__')
                    if isinstance(f, FuncV):
                        return it.call_func(f, [a], {}, S, node)
                if h.kind in ('list', 'set') and h.items is not None:
                    return Const(len(h.items))
                if h.kind == 'dict' and h.summ is None:
                    return Const(len(h.items))
            if isinstance(a, Num) and a.kind == 's':
                from .engine import Bottom
                raise Bottom('len of scalar')
            if isinstance(a, Const):
                from .engine import Bottom
                raise Bottom('len of scalar')
            return Num(D.plain, EMPTY, 's')
        if n == 'range':
            if all(isinstance(x, Const) and isinstance(x.v, int) for x in args) and args:
                r = range(*[x.v for x in args])
                if len(r) <= 512:
                    return it.new_list(S, [Const(i) for i in r])
            return it.new_list(S, None, Num(D.plain, EMPTY, 's'))
        if n == 'enumerate':
            items, summ = it.iterate(a, S, node)
            st = kw.get('start', args[1] if len(args) > 1 else None)
            off = st.v if isinstance(st, Const) else 0
            if items is not None:
                return it.new_list(S, [Tup([Const(i + off), x]) for i, x in enumerate(items)])
            return it.new_list(S, None, Tup([Num(D.plain, EMPTY, 's'), summ if summ is not None else TOP]))
        if n == 'zip':
            cols = [it.iterate(x, S, node) for x in args]
            if cols and all(c[0] is not None for c in cols):
                return it.new_list(S, [Tup(t) for t in zip(*[c[0] for c in cols])])
            el = []
            for i, s in cols:
                for x in i or ():
                    s = x if s is None else it.join(s, x, S, node)
                el.append(s if s is not None else TOP)
            return it.new_list(S, None, Tup(el))
        if n in ('list', 'tuple', 'set', 'sorted', 'reversed', 'frozenset', 'iter'):
            if a is None:
                return Tup(()) if n == 'tuple' else it.new_list(S, [])
            if isinstance(a, Choice) and any(isinstance(x, Const) and x.v is None for x in a.alts):
                pass
            items, summ = it.iterate(a, S, node)
            if items is not None:
                if n == 'reversed':
                    items = items[::-1]
                if n == 'sorted':
                    if all(isinstance(x, Const) for x in items):
                        try:
                            items = sorted(items, key=lambda c: c.v)
                        except TypeError:
                            return it.new_list(S, None, TOP)
                    elif len(items) > 1:
                        s = None
                        for x in items:
                            s = x if s is None else it.join(s, x, S, node)
                        return it.new_list(S, None, s)
                if n == 'set':
                    out = []
                    for x in items:
                        if not any(it.same(x, y) for y in out):
                            out.append(x)
                    items = out
                return Tup(items) if n == 'tuple' else it.new_list(S, items)
            if n == 'tuple':
                return Top(it.deps(summ, S)) if summ is None else it.new_list(S, None, summ)
            return it.new_list(S, None, summ if summ is not None else TOP)
        if n == 'dict':
            d, s = ({}, None)
            if a is not None:
                d, s = it.as_dict(a, S)
                if d is None:
                    items, summ = it.iterate(a, S, node)
                    d, s = {}, None
                    if items is not None and all(isinstance(t, Tup) and len(t.items) == 2 and isinstance(t.items[0], Const) for t in items):
                        d = {t.items[0].v: t.items[1] for t in items}
                    else:
                        s = TOP
            d = dict(d)
            d.update(kw)
            return it.new_dict(S, d, s if s is not None else ku)
        if n == 'isinstance':
            t = self.isinstance_(a, args[1], S)
            if t is None:
                return it.bool_unknown(a, S=S)
            return Const(t)
        if n == 'callable':
            return Const(isinstance(a, (FuncV, Bound, ClassV, ExtV)))if not isinstance(a, (Top, Choice)) else it.bool_unknown(S=S)
        if n == 'hasattr':
            return self.hasattr_(a, args[1], S)
        if n == 'getattr':
            if isinstance(args[1], Const):
                if isinstance(a, Ref) and len(args) > 2:
                    h = it.hget(S, a)
                    if h.kind == 'obj' and args[1].v not in h.items and h.cls.lookup(args[1].v)[0] is None and not h.cls.has_ext():
                        return args[2]
                return it.getattr(a, args[1].v, S, node)
            return TOP
        if n == 'setattr':
            if isinstance(args[1], Const):
                it.setattr(a, args[1].v, args[2], S, node)
            return NONE
        if n == 'delattr':
            if isinstance(args[1], Const) and isinstance(a, Ref):
                h = it.hget(S, a)
                if h.kind == 'obj' and args[1].v in h.items:
                    it.hset(S, a, h.rep(items={k: v for k, v in h.items.items() if k != args[1].v}))
            return NONE
        if n in ('abs',):
            return self.numeric('numpy.abs', 'abs', args, kw, S, node, it.where(node))
        if n in ('max', 'min'):
            xs = args
            if len(args) == 1:
                items, summ = it.iterate(a, S, node)
                xs = items if items is not None else [summ if summ is not None else TOP]
            if xs and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in xs):
                return Const((max if n == 'max' else min)(x.v for x in xs))
            if not xs:
                return TOP
            return Num(D.minmax([it.pay(x, S) for x in xs], it.where(node), n == 'max'), EMPTY, 's')
        if n == 'sum':
            r = self.reduce(a, S, node)
            return r
        if n == 'complex' and len(args) == 2:
            w = it.where(node)
            return Num(D.add(it.pay(args[0], S), D.mul(D.const(1j), it.pay(args[1], S), w), w), EMPTY, 's')
        if n in ('int', 'float', 'complex', 'round'):
            if a is None:
                return Const({'int': 0, 'float': 0.0, 'complex': 0j, 'round': 0}[n])
            if isinstance(a, Const) and len(args) == 1:
                try:
                    return Const({'int': int, 'float': float, 'complex': complex, 'round': round}[n](a.v), a.deps)
                except Exception:
                    from .engine import Bottom
                    raise Bottom('ValueError')
            if isinstance(a, (Num, Choice, Const)):
                p = it.pay(a, S)
                if poly.ML and n in ('int', 'round') and len(args) == 1 and isinstance(p.sym, poly.mlval.Val) and p.sym.c is not None:
                    return Const({'int': int, 'round': round}[n](p.sym.c), p.deps)
                if n in ('int', 'round'):
                    p = G(p.u, p.p, p.w, None, p.deps, p.cx)
                return Num(p, EMPTY, 's')
            return Top(it.deps(a, S)) if a is not None else TOP
        if n == 'bool':
            t = it.truth(a, S)
            return Const(t) if t is not None else it.bool_unknown(a, S=S)
        if n == 'str':
            if isinstance(a, Const):
                return Const(str(a.v))
            return self.top(args, kw, S)
        if n == 'pow':
            return it.binop(ast.Pow(), args[0], args[1], S, node)
        if n in ('any', 'all'):
            items, summ = it.iterate(a, S, node)
            if items is not None:
                ts = [it.truth(x, S) for x in items]
                if n == 'any':
                    if any(t is True for t in ts):
                        return TRUE
                    if all(t is False for t in ts):
                        return FALSE
                else:
                    if any(t is False for t in ts):
                        return FALSE
                    if all(t is True for t in ts):
                        return TRUE
            return it.bool_unknown(a, S=S)
        if n == 'map':
            items, summ = it.iterate(args[1], S, node)
            if items is not None and len(args) == 2:
                return it.new_list(S, [it.call(a, [x], {}, S, node) for x in items])
            cols = [it.iterate(x, S, node) for x in args[1:]]
            if all(c[0] is not None for c in cols):
                return it.new_list(S, [it.call(a, list(t), {}, S, node) for t in zip(*[c[0] for c in cols])])
            return it.new_list(S, None, it.call(a, [c[1] if c[1] is not None else TOP for c in cols], {}, S, node))
        if n == 'filter':
            return it.new_list(S, None, TOP)
        if n == 'type':
            if isinstance(a, Ref):
                h = it.hget(S, a)
                if h.kind == 'obj':
                    return h.cls
                return ExtV('builtins.' + h.kind)
            if isinstance(a, Const):
                return ExtV('builtins.' + type(a.v).__name__)
            if isinstance(a, Tup) and not a.arr:
                return ExtV('builtins.tuple')
            return TOP
        if n in ('print', 'id', 'object_init', 'vars', 'dir', 'format', 'repr', 'open', 'input', 'hash', 'exec', 'eval'):
            if n in ('eval', 'exec'):
                it.event('dynamic', n, None, node)
            return NONE if n in ('print', 'object_init') else self.top(args, kw, S)
        if n == 'slice':
            return ExtObj('slice', tuple((list(args) + [NONE] * 3)[:3]))
        if n == 'next':
            items, summ = it.iterate(a, S, node)
            if items:
                return items[0]
            return summ if summ is not None else TOP
        if n.endswith('Error') or n.endswith('Exception') or n.endswith('Warning'):
            return ExtObj('builtins.' + n, tuple(args))
        if n == 'object':
            return ExtObj('builtins.object')
        return self.top(args, kw, S)

    def hasattr_(self, a, nm, S):
        it = self.it
        if not isinstance(nm, Const):
            return it.bool_unknown(S=S)
        if isinstance(a, Choice):
            ts = set()
            for x in a.alts:
                r = self.hasattr_(x, nm, S)
                ts.add(r.v if isinstance(r, Const) else None)
            t = ts.pop() if len(ts) == 1 else None
            return Const(t) if t is not None else it.bool_unknown(S=S)
        if isinstance(a, Ref):
            h = it.hget(S, a)
            if h.kind == 'obj':
                if nm.v in h.items:
                    if it.pre_ids is not None and a.id in it.pre_ids and nm.v not in h.wr:
                        it.attr_reads.setdefault((a.id, nm.v), (it.where(), h.cls.name, it.stack()))
                    return TRUE
                if h.cls.lookup(nm.v)[0] is not None:
                    return TRUE
                if it.pre_ids is not None and a.id in it.pre_ids:
                    it.attr_reads.setdefault((a.id, nm.v), (it.where(), h.cls.name, it.stack()))
                if not h.cls.has_ext() and h.tag != 'opaque':
                    return FALSE
            elif h.kind == 'dict':
                return Const(hasattr({}, nm.v))
            elif h.kind == 'list':
                return Const(hasattr([], nm.v))
            return it.bool_unknown(S=S)
        if isinstance(a, Const):
            return Const(hasattr(a.v, nm.v))
        if isinstance(a, Num):
            if nm.v in ('__len__', '__iter__', 'shape'):
                return {'a': TRUE, 's': FALSE}.get(a.kind, it.bool_unknown(S=S))
        if isinstance(a, ModV):
            return Const(it.modattr(a.mod, nm.v) is not None)
        return it.bool_unknown(S=S)

    # ---------------------------------------------------------------- methods
    def call_meth(self, r, n, args, kw, S, node, su=None, ku=None):
        it = self.it
        D = it.D
        if isinstance(r, Choice):
            out = None
            for a in r.alts:
                v = self.call_meth(a, n, args, kw, S, node, su, ku)
                out = v if out is None else it.join(out, v, S, node)
            return out
        if isinstance(r, Ref):
            h = it.hget(S, r)
            if h.kind == 'dict':
                return self.dict_meth(r, h, n, args, kw, S, node, ku)
            if h.kind == 'list':
                return self.list_meth(r, h, n, args, kw, S, node)
        if isinstance(r, Tup):
            if n == 'index':
                for i, x in enumerate(r.items):
                    if it.equal(x, args[0], S) is True:
                        return Const(i)
                return Num(D.plain, EMPTY, 's')
            if n == 'count':
                return Num(D.plain, EMPTY, 's')
            if r.arr:
                if n in ('copy', 'flatten', 'astype', 'tolist', 'ravel', 'squeeze', 'conj') and not any(isinstance(x, Tup) for x in r.items):
                    return r
                return self.call_ext('numpy.' + n, [r] + list(args), kw, S, node)
            return TOP
        if poly.ML and isinstance(r, Const) and isinstance(r.v, bool) and n in ('any', 'all', 'astype', 'copy', 'flatten'):
            return r
        if isinstance(r, Const):
            if isinstance(r.v, str):
                if all(isinstance(x, Const) for x in args):
                    try:
                        if n in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'replace', 'split', 'join', 'find', 'format', 'isdigit', 'count', 'title', 'capitalize', 'rsplit', 'lstrip', 'rstrip', 'index') and not kw:
                            v = getattr(r.v, n)(*[x.v for x in args])
                            if isinstance(v, list):
                                return it.new_list(S, [Const(x) for x in v])
                            return Const(v)
                    except Exception:
                        return TOP
                if n == 'join':
                    items, summ = it.iterate(args[0], S, node)
                    if items is not None and all(isinstance(x, Const) and isinstance(x.v, str) for x in items):
                        return Const(r.v.join(x.v for x in items))
                return self.top(args, kw, S)
            return self.num_meth(Num(it.pay(r, S), EMPTY, 's'), n, args, kw, S, node)
        if isinstance(r, Num):
            return self.num_meth(r, n, args, kw, S, node)
        if isinstance(r, ExtObj):
            return self.obj_meth(r, n, args, kw, S, node)
        if isinstance(r, Top):
            if r.own and n in ('sort', 'fill', 'append', 'extend', 'update', 'pop', 'setdefault', 'insert', 'remove', 'clear', 'reverse', 'put', 'resize', 'popitem'):
                it.event('mut', tuple(sorted(r.own)), '.%s()' % n, node)
            if n in ('copy', 'flatten', 'astype', 'tolist'):
                return Top(r.deps)
            if n in ('reshape', 'ravel', 'transpose', 'squeeze', 'view', 'swapaxes', 'get'):
                return Top(r.deps | self.alld(args, kw, S), r.own)
            return Top(r.deps | self.alld(args, kw, S))
        return self.top(args, kw, S)

    def num_meth(self, r, n, args, kw, S, node):
        it = self.it
        D = it.D
        if n in ('sort', 'fill', 'put', 'resize', 'partition', 'itemset', 'setfield', 'byteswap'):
            if r.own:
                it.event('mut', tuple(sorted(r.own)), '.%s() in place' % n, node)
            return NONE
        if n in ('reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'diagonal'):
            return Num(r.pay, r.own, 'a')
        if poly.ML and n in ('conj', 'conjugate'):
            return Num(self.ml('conj', r.pay), EMPTY, r.kind)
        if n in ('copy', 'flatten', 'astype', 'tolist', 'item', 'conj', 'conjugate', 'repeat', 'take', 'to', 'to_value', 'compress'):
            p = r.pay
            return Num(p, EMPTY, 's' if n == 'item' else r.kind)
        if n in ('all', 'any', 'argmax', 'argmin', 'argsort', 'nonzero', 'searchsorted'):
            return Num(D.withdeps(D.plain, r.pay.deps), EMPTY)
        v = self.call_ext('numpy.' + n, [r] + list(args), kw, S, node)
        return v

    def shape_of(self, v):
        if isinstance(v, Const) and isinstance(v.v, (int, float, complex)) or isinstance(v, Num) and v.kind == 's':
            return ()
        if isinstance(v, Tup):
            ss = [self.shape_of(x) for x in v.items]
            if not ss:
                return (0,)
            if None in ss or any(x != ss[0] for x in ss):
                return None
            return (len(ss),) + ss[0]
        return None

    def matrix(self, v):
        """rows of a two-dimensional array of tracked scalars."""
        sh = self.shape_of(v) if isinstance(v, Tup) and v.arr else None
        return [list(r.items) for r in v.items] if sh is not None and len(sh) == 2 else None

    def transposed(self, v, S):
        if isinstance(v, Tup):
            m = self.matrix(v)
            if m:
                return Tup([Tup([r[j] for r in m], True) for j in range(len(m[0]))], True)
            sh = self.shape_of(v)
            if sh is not None and len(sh) == 1:
                return v
            return Num(self.it.pay(v, S), EMPTY, 'a')
        return v

    def matprod(self, a, b, S, node):
        A, B = self.matrix(a), self.matrix(b)
        va = list(a.items) if isinstance(a, Tup) and A is None and self.shape_of(a) == (len(a.items),) else None
        vb = list(b.items) if isinstance(b, Tup) and B is None and self.shape_of(b) == (len(b.items),) else None

        def dot(x, y):
            t = None
            for p, q in zip(x, y):
                m = self.it.binop(ast.Mult(), p, q, S, node)
                t = m if t is None else self.it.binop(ast.Add(), t, m, S, node)
            return t
        if A and B and len(A[0]) == len(B):
            return Tup([Tup([dot(r, [q[j] for q in B]) for j in range(len(B[0]))], True) for r in A], True)
        if A and vb and len(A[0]) == len(vb):
            return Tup([dot(r, vb) for r in A], True)
        if va and B and len(B) == len(va):
            return Tup([dot(va, [q[j] for q in B]) for j in range(len(B[0]))], True)
        if va and vb and len(va) == len(vb):
            return dot(va, vb)
        return None

    def const_items(self, v, S):
        if isinstance(v, Ref):
            h = self.it.hget(S, v)
            v = Tup(h.items) if h.kind == 'list' and h.items is not None and h.summ is None else v
        if isinstance(v, Tup) and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in v.items):
            return [x.v for x in v.items]
        return None

    def dict_meth(self, r, h, n, args, kw, S, node, ku=None):
        it = self.it
        MUT = {'update', 'pop', 'popitem', 'clear', 'setdefault'}
        if n in MUT:
            if h.own:
                it.event('mut', tuple(sorted(h.own)), 'dict.%s()' % n, node)
            if it.pre_ids is not None and r.id in it.pre_ids and not h.own:
                it.attr_writes.setdefault((r.id, '[]'), []).append((it.where(node), self.alld(args, kw, S), h.kind, it.stack()))
            if r.id in it.prog.static_heap and it.frames[-1].func is not None:
                it.event('static_write', r.id, 'dict.%s() on module-level container' % n, node)
        if n == 'copy':
            return it.new_dict(S, h.items, h.summ)
        if n == 'get':
            d = args[1] if len(args) > 1 else NONE
            k = args[0]
            if isinstance(k, Const):
                if k.v in h.items:
                    return h.items[k.v]
                if h.summ is not None:
                    return it.join(h.summ, d, S, node)
                return d
            v = d
            for x in h.items.values():
                v = it.join(v, x, S, node)
            if h.summ is not None:
                v = it.join(v, h.summ, S, node)
            return v
        if n == 'keys':
            if h.summ is None:
                return it.new_list(S, [Const(k) for k in h.items])
            return it.new_list(S, None, TOP)
        if n == 'values':
            if h.summ is None:
                return it.new_list(S, list(h.items.values()))
            return it.new_list(S, None, TOP)
        if n == 'items':
            if h.summ is None:
                return it.new_list(S, [Tup([Const(k), v]) for k, v in h.items.items()])
            return it.new_list(S, None, Tup([TOP, h.summ]))
        if n == 'update':
            itms = dict(h.items)
            s = h.summ
            if args:
                d, ss = it.as_dict(args[0], S)
                if d is None:
                    s = TOP
                else:
                    itms.update(d)
                    if ss is not None:
                        s = ss if s is None else it.join(s, ss, S, node)
            itms.update(kw)
            if ku is not None:
                s = ku if s is None else it.join(s, ku, S, node)
            it.hset(S, r, h.rep(items=itms, summ=s))
            return NONE
        if n == 'pop':
            k = args[0] if args else TOP
            d = args[1] if len(args) > 1 else kw.get('default')
            if isinstance(k, Const):
                itms = dict(h.items)
                if k.v in itms:
                    v = itms.pop(k.v)
                    it.hset(S, r, h.rep(items=itms))
                    return v
                if h.summ is not None:
                    return h.summ
                if d is not None:
                    return d
                from .engine import Bottom
                it.event('keyerror', k.v, None, node)
                raise Bottom('KeyError')
            return TOP
        if n == 'setdefault':
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            if isinstance(k, Const):
                if k.v in h.items:
                    return h.items[k.v]
                itms = dict(h.items)
                itms[k.v] = d
                it.hset(S, r, h.rep(items=itms))
                return d
            return TOP
        if n == 'clear':
            it.hset(S, r, h.rep(items={}, summ=None))
            return NONE
        return self.top(args, kw, S)

    def list_meth(self, r, h, n, args, kw, S, node):
        it = self.it
        MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear', 'add', 'discard', 'update'}
        if n in MUT:
            if h.own:
                it.event('mut', tuple(sorted(h.own)), 'list.%s()' % n, node)
            if it.pre_ids is not None and r.id in it.pre_ids and not h.own:
                it.attr_writes.setdefault((r.id, '[]'), []).append((it.where(node), self.alld(args, kw, S), h.kind, it.stack()))
            if r.id in it.prog.static_heap and it.frames[-1].func is not None:
                it.event('static_write', r.id, 'list.%s() on module-level container' % n, node)
        if n in ('append', 'add'):
            v = args[0] if args else TOP
            if h.items is not None and not it.widening:
                it.hset(S, r, h.rep(items=h.items + (v,)))
            else:
                b = it.blur_list(h, S, node)
                it.hset(S, r, b.rep(summ=v if b.summ is None else it.join(b.summ, v, S, node)))
            return NONE
        if n in ('extend', 'update'):
            hh = it.hget(S, r)
            it.hset(S, r, hh.rep(own=EMPTY))
            it.list_extend(r, args[0], S, node)
            it.hset(S, r, it.hget(S, r).rep(own=hh.own))
            return NONE
        if n == 'insert':
            if isinstance(args[0], Const) and h.items is not None and not it.widening:
                x = list(h.items)
                x.insert(args[0].v, args[1])
                it.hset(S, r, h.rep(items=tuple(x)))
            else:
                b = it.blur_list(h, S, node)
                it.hset(S, r, b.rep(summ=args[1] if b.summ is None else it.join(b.summ, args[1], S, node)))
            return NONE
        if n == 'pop':
            k = args[0] if args else Const(-1)
            if isinstance(k, Const) and h.items is not None and h.items:
                x = list(h.items)
                try:
                    v = x.pop(k.v)
                except IndexError:
                    from .engine import Bottom
                    raise Bottom('IndexError')
                it.hset(S, r, h.rep(items=tuple(x)))
                return v
            b = it.blur_list(h, S, node)
            it.hset(S, r, b)
            return b.summ if b.summ is not None else TOP
        if n == 'remove':
            if h.items is not None and args:
                for i, x in enumerate(h.items):
                    t = it.equal(x, args[0], S)
                    if t is True:
                        y = list(h.items)
                        del y[i]
                        it.hset(S, r, h.rep(items=tuple(y)))
                        return NONE
                    if t is None:
                        break
            it.hset(S, r, it.blur_list(h, S, node))
            return NONE
        if n in ('sort', 'reverse'):
            if n == 'reverse' and h.items is not None:
                it.hset(S, r, h.rep(items=h.items[::-1]))
            else:
                it.hset(S, r, it.blur_list(h, S, node))
            return NONE
        if n == 'copy':
            return it.new_list(S, h.items, h.summ)
        if n == 'index':
            if h.items is not None and args:
                for i, x in enumerate(h.items):
                    t = it.equal(x, args[0], S)
                    if t is True:
                        return Const(i)
                    if t is None:
                        break
            return Num(it.D.plain, EMPTY, 's')
        if n == 'count':
            if h.items is not None and args:
                ts = [it.equal(x, args[0], S) for x in h.items]
                if None not in ts:
                    return Const(sum(1 for t in ts if t))
            return Num(it.D.plain, EMPTY, 's')
        if n == 'clear':
            it.hset(S, r, h.rep(items=(), summ=None))
            return NONE
        return self.top(args, kw, S)

    def obj_meth(self, r, n, args, kw, S, node):
        d = r.deps | self.alld(args, kw, S)
        if r.path.startswith('scipy.interpolate') and n in ('ev', '__call__'):
            return self.call_obj(r, args, kw, S, node)
        return Top(d, EMPTY, self.it.inv(list(args) + list(r.args or ()), dict(kw, **(r.kw or {})), S))

    def call_obj(self, f, args, kw, S, node):
        it = self.it
        D = it.D
        d = f.deps | self.alld(args, kw, S)
        if f.path == 'functools.partial' and f.args:
            k = dict(f.kw)
            k.update(kw)
            return it.call(f.args[0], list(f.args[1:]) + list(args), k, S, node)
        if f.path.startswith('scipy.interpolate'):
            n = strip(f.path)
            if n in ('interp1d', 'InterpolatedUnivariateSpline', 'UnivariateSpline', 'CubicSpline', 'PchipInterpolator', 'Akima1DInterpolator') and len(f.args) >= 2:
                p = it.pay(f.args[1], S)
                return Num(D.withdeps(G(p.u, p.p, p.w, None, p.deps, p.cx), d), EMPTY, it.kind_of(*args) if args else '?')
            if n in ('RectBivariateSpline', 'RegularGridInterpolator', 'interp2d') and len(f.args) >= 3:
                if not kw:
                    p = it.pay(f.args[2], S)
                    return Num(D.withdeps(G(p.u, p.p, p.w, None, p.deps, p.cx), d), EMPTY, '?')
        return Top(d, EMPTY, it.inv(list(args) + list(f.args or ()), dict(kw, **(f.kw or {})), S))
