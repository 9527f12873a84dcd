"""Evaluation of every lens profile in the multi-level value domain with derivatives (mlval)."""
import copy
import os
from .engine import Program, Interp, Frame, Bottom, Budget, Mod
from .values import *
from .grades import Domain
from . import poly, mlval
from .lensprof import base, ANGLES1, ANGLES2

LISTS = {'amp': 2, 'sigma': 2, 'coeffs': 6}
DISCRETE = {'m': (3, 1, 2, 4), 'parity': (1, -1)}
DISCRETE_OF = {'MULTIPOLE_ELL': dict(DISCRETE, m=(3, 1, 4))}       # the orders that profile supports
NONPOS = set("""center_x center_y ra_0 dec_0 com_x com_y e1 e2 e21 e22 e23 gamma1 gamma2 f_xy f_xx f_yy f_x f_y alpha_x alpha_y
F1 F2 G1 G2 g1 g2 g3 g4 kappa phi phi_G phi_m direction psi_ext delta_phi_m1 delta_phi_m3 delta_phi_m4 varphi_m phi_ref phi_dipole
kappa_ext omega a1_a a3_a a4_a a_m coeff""".split())


CORES = {'Rs', 'r_core', 'r_trunc', 's_scale', 'Ra', 'theta_c'}


def fresh_program(prog):
    """same syntax trees, module state not yet evaluated."""
    p = Program(prog.root, prog.package)
    p.consulted = prog.consulted
    for n, m in prog.mods.items():
        if m.src or not m.loaded:
            p.mods[n] = Mod(n, m.path, m.tree, m.src)
    return p


class MLRun:
    """one evaluation: everything inside the with-block uses the given chain / seed / main field."""

    def __init__(self, prog, seed, main, fallback=False, drop=False, budget=400000, entry='lenstronomy.LensModel.lens_model'):
        self.base = prog
        self._prog = None
        self.args = (seed, main)
        self.flags = (fallback, drop)
        self.budget = budget
        self.entry = entry

    @property
    def prog(self):
        if self._prog is None:
            self._prog = fresh_program(self.base)
        return self._prog

    @prog.setter
    def prog(self, p):
        self._prog = p

    def __enter__(self):
        self.old = (poly.ML, poly.FP, mlval.R)
        poly.ML = True
        self.run = mlval.start(*self.args)
        self.run.fallback, self.run.drop = self.flags
        self.D = Domain(bases=(), parities=0, weights=0)
        return self

    def __exit__(self, *a):
        poly.ML, poly.FP, mlval.R = self.old

    def interp(self, cls=Interp):
        it = cls(self.prog, self.D, self.budget)
        it.max_arr = 400
        it.max_table = 2
        m = it.load(self.entry)
        it.frames = [Frame(None, m, None, None)]
        return it

    def num(self, n, kind='s', positive=None, var=None, angle=False):
        return Num(self.D.mk(sym=mlval.symbol(n, positive, var, angle), deps=frozenset([n])), EMPTY, kind)

    def reset(self):
        r = self.run
        r.literals, r.bounds, r.infeasible, r.weak = {}, {}, False, False

    @staticmethod
    def val(v):
        if isinstance(v, Num):
            return mlval.lift(v.pay.sym)
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return mlval.const(v.v)
        if isinstance(v, Tup) and v.arr and len(v.items) == 1:
            return MLRun.val(v.items[0])
        return None


def profile_param(M, prof, n, lower, upper=None):
    b = base(n)
    if b in DISCRETE:
        d = DISCRETE_OF.get(prof, DISCRETE)[b]
        return Const(d[M.run.seed // 3 % len(d)])
    pos = None
    if isinstance(lower, dict) and isinstance(lower.get(n), (int, float)) and lower[n] >= 0:
        pos = True
    elif not isinstance(lower, dict) or n not in lower:
        pos = None if b in NONPOS else True
    if pos and isinstance(upper, dict) and upper.get(n) == 1:
        M.run.below_one.add(n)
    if n in LISTS and (prof.startswith('MULTI') or n == 'coeffs'):
        return Tup([M.num('%s[%d]' % (n, i), 's', True) for i in range(LISTS[n])], True)
    return M.num(n, 's', pos, angle=b in ANGLES1 or b in ANGLES2)


_KEPT = {}


def _num(v, d=0):
    if isinstance(v, Num):
        return True
    if isinstance(v, Tup) and d < 4:
        return any(_num(x, d + 1) for x in v.items)
    return False


def _pure(heap):
    """no random values in the state built by the constructors."""
    for o in heap.values():
        it = o.items
        for x in (it.values() if isinstance(it, dict) else it or ()):
            if _num(x):
                return False
        if _num(o.summ):
            return False
    return True


def refresh(it):
    """forget what the modules loaded so far computed with the values of an earlier evaluation; False if impossible."""
    prog = it.prog
    if not _pure(prog.static_heap):
        return False
    for m in list(prog.mods.values()):
        if m.loaded and any(_num(x) for x in m.globals.values()):
            m.globals.clear()
            m.loaded = False
            it.load(m.name)
    return True


def profile_eval(M, name):
    """ProfileEval whose constructed profile instance is shared by all evaluations of this process."""
    k = (id(M.base), name)
    E = _KEPT.get(k)
    if E is not None and refresh(E.it):
        E = copy.copy(E)
        M.prog, M.D = E.it.prog, E.it.D
        E.M = M
        E.it.budget = E.it.budget0
        E.sample()
        return E
    E = ProfileEval(M, name)
    _KEPT[k] = E if _pure(E.S.heap) else None
    return E


class ProfileEval:
    def __init__(self, M, name):
        self.M = M
        self.name = name
        self.it = it = M.interp()
        self.S = S = State({}, {})
        c = it.load('lenstronomy.LensModel.lens_model').globals['LensModel']
        lm = it.instantiate(c, [], {'lens_model_list': it.new_list(S, [Const(name)])}, S, None)
        h = it.hget(S, it.hget(S, lm).items['lens_model'])
        self.fo = it.hget(S, h.items['func_list']).items[0]
        self.cls = it.hget(S, self.fo).cls
        items, summ = it.iterate(it.getattr(self.fo, 'param_names', S, None), S, None)
        self.params = [x.v for x in items] if items is not None else None
        self.lower = self.limits('lower_limit_default')
        self.upper = self.limits('upper_limit_default')
        self.sample()

    def limits(self, attr):
        lo = self.it.getattr(self.fo, attr, self.S, None)
        if isinstance(lo, Ref):
            hh = self.it.hget(self.S, lo)
            if hh.kind == 'dict':
                return {k: (v.v if isinstance(v, Const) else None) for k, v in hh.items.items()}
        return None

    def sample(self):
        M = self.M
        self.centre = next(((a, b) for a, b in (('center_x', 'center_y'), ('ra_0', 'dec_0')) if a in self.params and b in self.params), (None, None))
        axis = {}
        for a, b in (('e1', 'e2'), ('e11', 'e21'), ('e12', 'e22'), ('e13', 'e23'), ('gamma1', 'gamma2')):
            if a in self.params and b in self.params:
                M.run.ellipticity(a, b)
                axis[a[2:] if a[0] == 'e' else ''] = len(axis)
        cores = [(n, axis.get(n[3:] if n.startswith('w_') else '')) for n in self.params if n in CORES or n.startswith('w_')]
        M.run.polar('x', 'y', 'radius', *self.centre, cores=cores)
        self.kw = {p: profile_param(M, self.name, p, self.lower, self.upper) for p in self.params}

    def call(self, meth, args, kw=None):
        S = self.S.copy()
        it = self.it
        m = it.getattr(self.fo, meth, S, None)
        return it.call(m, list(args), dict(self.kw if kw is None else kw), S, None)
