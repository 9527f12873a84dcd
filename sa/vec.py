"""Symbolic parameter vectors: values are single symbols, followed through packing and unpacking code."""
from .engine import Interp, Frame, Bottom, Budget
from .values import *
from .grades import Domain
from . import poly


class VecRunner:
    def __init__(self, prog, entry, budget=600000):
        self.prog = prog
        self.entry = entry
        self.D = Domain(bases=(), parities=0, weights=0)
        self.budget = budget

    def interp(self):
        self.D.steps = {}
        it = Interp(self.prog, self.D, self.budget)
        it.max_arr = 400
        m = it.load(self.entry)
        it.frames = [Frame(None, m, None, None)]
        return it

    def cls(self, it, modname, name):
        return it.load(modname).globals.get(name)

    def sym(self, label, kind='s'):
        return Num(self.D.mk(sym=poly.symbol(label), deps=frozenset([label])), EMPTY, kind)

    def arr(self, label, n):
        return Tup([self.sym('%s[%d]' % (label, i)) for i in range(n)], True)

    def py(self, it, S, v):
        """python value -> abstract value."""
        if isinstance(v, V):
            return v
        if isinstance(v, dict):
            return it.new_dict(S, {k: self.py(it, S, x) for k, x in v.items()})
        if isinstance(v, list):
            return it.new_list(S, [self.py(it, S, x) for x in v])
        if isinstance(v, tuple):
            return Tup([self.py(it, S, x) for x in v])
        return Const(v)

    def unpy(self, it, S, v):
        """abstract value -> symbolic python structure: symbols become strings 's:<name>', unknown becomes None."""
        if isinstance(v, Const):
            return v.v if not isinstance(v.v, str) else 'str:' + v.v
        if isinstance(v, Num):
            return 's:%r' % v.pay.sym if v.pay.sym is not None else ('?', tuple(sorted(v.pay.deps)))
        if isinstance(v, Tup):
            return [self.unpy(it, S, x) for x in v.items]
        if isinstance(v, Ref):
            h = it.hget(S, v)
            if h.kind in ('list', 'set') and h.items is not None and h.summ is None:
                return [self.unpy(it, S, x) for x in h.items]
            if h.kind == 'dict' and h.summ is None:
                return {k: self.unpy(it, S, x) for k, x in h.items.items()}
        if isinstance(v, Top) and v.deps:
            return ('?', tuple(sorted(v.deps)))
        return ('?', repr(v)[:60])


def unknown(x):
    if isinstance(x, tuple) and x and x[0] == '?':
        return True
    if isinstance(x, list):
        return any(unknown(y) for y in x)
    if isinstance(x, dict):
        return any(unknown(y) for y in x.values())
    return False
