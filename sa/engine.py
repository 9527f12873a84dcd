"""Abstract interpreter over the Python AST of the analysed package.

Nothing of the analysed program is imported or executed: modules are parsed with
``ast`` and evaluated over abstract values (values.py / grades.py).  Conditions whose
value is not a known constant are explored on both sides and the results joined; calls
into the package are resolved through the abstract receiver and inlined; calls outside
the package go through the transfer functions of npmodel.py or yield an unknown value.
"""
import ast
import os
import sys
from . import values as VV
from .values import (V, Top, TOP, Const, NONE, TRUE, FALSE, Num, Tup, Ref, Choice, ModV, FuncV,
                     ClassV, Bound, ExtV, ExtMeth, SuperV, ExtObj, HObj, State, EMPTY, Native)
from .grades import Domain, Bad, G
from . import poly

EQMASK = poly.symbol('<special-point mask>')

sys.setrecursionlimit(200000)

_BUILTINS = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)}
import builtins as _b
_BUILTINS = set(dir(_b))


class Bottom(Exception):
    """the abstract path ends here (exception raised by the program)."""
    def __init__(self, why='', val=None):
        self.why = why
        self.val = val


class Budget(Exception):
    pass


class Mod:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.globals = {}
        self.loaded = False


_PARSED = {}        # path -> (syntax tree, source); every run of the tool reads each file once


class Program:
    """parsed modules of the package under root."""

    def __init__(self, root='/repo', package='lenstronomy'):
        self.root = root
        self.package = package
        self.mods = {}
        self.static_heap = {}
        self.counter = [1]
        self.consulted = set()

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def is_pkg_name(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None:
            d = os.path.join(self.root, *name.split('.'))
            if os.path.isdir(d):
                m = Mod(name, d, ast.Module(body=[], type_ignores=[]), '')
                m.loaded = True
                self.mods[name] = m
                return m
            return None
        if p not in _PARSED:
            with open(p, encoding='utf-8') as fh:
                src = fh.read()
            _PARSED[p] = (ast.parse(src, p), src)
        tree, src = _PARSED[p]
        m = Mod(name, p, tree, src)
        self.mods[name] = m
        self.consulted.add(p)
        return m

    def all_modules(self):
        out = []
        base = os.path.join(self.root, self.package)
        for d, dn, fn in os.walk(base):
            dn[:] = sorted(x for x in dn if x != '__pycache__')
            for f in sorted(fn):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    out.append(rel)
        return out

    def rel(self, path):
        return os.path.relpath(path, self.root)


class Frame:
    __slots__ = ("func", "mod", "cls", "self_", "rets", "loops", "node", "params", "special", "lax")

    def __init__(self, func, mod, cls, self_):
        self.func = func
        self.mod = mod
        self.cls = cls
        self.self_ = self_
        self.rets = []
        self.loops = []
        self.node = None
        self.params = ()
        self.special = 0
        self.lax = False

    def qual(self):
        f = self.func
        if f is None:
            return self.mod.name if self.mod else '?'
        return (self.cls.name + '.' if self.cls is not None else '') + f.node.name if hasattr(f.node, 'name') else 'lambda'


class Interp:
    MAXDEPTH = 60
    MAXUNROLL = 64

    def __init__(self, prog, domain=None, budget=400000):
        self.prog = prog
        self.D = domain or Domain()
        self.frames = []
        self.events = {}
        self.lost_stores = []
        self.counter = prog.counter
        self.budget0 = budget
        self.budget = budget
        self.widening = 0
        self.soft = False
        self.special = 0
        self.bad_compare = {}
        self.max_arr = 16
        self.max_table = None     # literal tables of more than 8 floats are abstracted to that many entries
        self.pos_labels = EMPTY
        self.cond_deps = set()
        self.pre_ids = None       # set of heap ids existing before the entry (history analysis)
        self.attr_reads = {}      # (id, attr) -> where   upward-exposed reads
        self.attr_writes = {}     # (id, attr) -> (where, val)
        self.call_hooks = []      # f(interp, func, args, kw, S, node)
        self.ext_hooks = []       # f(interp, path, args, kw, S, node)
        self.intrinsics = {}      # qualname -> f(interp, self_, args, kw, S, node)
        self.classes_by_qual = {}
        self.unknown_calls = {}
        self.funcs_seen = set()
        from . import npmodel
        self.np = npmodel.NP(self)

    # ------------------------------------------------------------------ utils
    def where(self, node=None):
        fr = self.frames[-1] if self.frames else None
        node = node or (fr.node if fr else None)
        line = getattr(node, 'lineno', 0)
        if fr is None:
            return '?:%s' % line
        return '%s:%s' % (self.prog.rel(fr.mod.path), line)

    def stack(self):
        out = []
        for fr in self.frames:
            nm = fr.func.qual if fr.func is not None else '<module>'
            out.append('%s:%s(%s)' % (self.prog.rel(fr.mod.path), getattr(fr.node, 'lineno', 0), nm))
        return out

    def event(self, kind, key, detail=None, node=None):
        k = (kind, key, self.where(node))
        if k not in self.events:
            self.events[k] = {'kind': kind, 'key': key, 'where': self.where(node),
                              'func': (self.frames[-1].func.qual if self.frames and self.frames[-1].func else '<module>'),
                              'detail': detail, 'stack': self.stack()}

    def new_id(self):
        self.counter[0] += 1
        return self.counter[0]

    def alloc(self, S, h):
        i = self.new_id()
        S.heap[i] = h
        return Ref(i)

    def new_list(self, S, items, summ=None, own=EMPTY):
        return self.alloc(S, HObj('list', tuple(items) if items is not None else None, summ, own=own))

    def new_dict(self, S, items, summ=None, own=EMPTY):
        return self.alloc(S, HObj('dict', dict(items), summ, own=own))

    def hget(self, S, ref):
        h = S.heap.get(ref.id)
        if h is None:
            h = self.prog.static_heap[ref.id]
        return h

    def hset(self, S, ref, h):
        S.heap[ref.id] = h

    # ------------------------------------------------------------------ modules
    def load(self, name):
        m = self.prog.get(name)
        if m is None:
            return None
        if not m.loaded:
            m.loaded = True
            S = State(m.globals, self.prog.static_heap)
            fr = Frame(None, m, None, None)
            saved = self.frames
            self.frames = [fr]
            bud = self.budget
            self.budget = 10**9
            try:
                m.globals['__name__'] = Const(name)
                m.globals['__file__'] = Const(m.path)
                S2 = self.exec_block(m.tree.body, S)
                if S2 is not None and S2.env is not m.globals:
                    m.globals.update(S2.env)
                if S2 is not None and S2.heap is not self.prog.static_heap:
                    self.prog.static_heap.update(S2.heap)
            finally:
                self.frames = saved
                self.budget = bud
        return m

    def modattr(self, m, name):
        if name in m.globals:
            return m.globals[name]
        sub = m.name + '.' + name
        if self.prog.path_of(sub) or os.path.isdir(os.path.join(self.prog.root, *sub.split('.'))):
            self.load(sub)
            return ModV(self.prog.get(sub))
        return None

    def get_class(self, modname, clsname):
        m = self.load(modname)
        if m is None:
            return None
        v = m.globals.get(clsname)
        return v if isinstance(v, ClassV) else None

    def get_func(self, modname, fname):
        m = self.load(modname)
        if m is None:
            return None
        v = m.globals.get(fname)
        return v if isinstance(v, FuncV) else None

    def import_name(self, name):
        """value for 'import a.b.c' target module."""
        if self.prog.is_pkg_name(name):
            m = self.load(name)
            if m is None:
                return ExtV(name)
            return ModV(m)
        return ExtV(name)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, S):
        for st in stmts:
            if S is None:
                return None
            S = self.exec_stmt(st, S)
        return S

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise Budget()

    def exec_stmt(self, st, S):
        self.tick()
        self.frames[-1].node = st
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            return S
        try:
            return m(st, S)
        except Bottom as b:
            if not b.why.startswith('no return'):
                self.last_end = b.why
            self.on_raise(b, st, S)
            return None

    last_end = ''

    def on_raise(self, b, st, S):
        pass

    def s_Expr(self, st, S):
        self.ev(st.value, S)
        return S

    def s_Pass(self, st, S):
        return S

    def s_Import(self, st, S):
        for a in st.names:
            if a.asname:
                S.env[a.asname] = self.import_name(a.name)
            else:
                top = a.name.split('.')[0]
                if self.prog.is_pkg_name(a.name):
                    self.import_name(a.name)
                S.env[top] = self.import_name(top)
        return S

    def s_ImportFrom(self, st, S):
        base = st.module or ''
        if st.level:
            pk = self.frames[-1].mod.name.split('.')
            isp = os.path.basename(self.frames[-1].mod.path) == '__init__.py'
            k = st.level - (1 if isp else 0)
            pk = pk[:len(pk) - k] if k else pk
            base = '.'.join(pk + ([base] if base else []))
        for a in st.names:
            if a.name == '*':
                if self.prog.is_pkg_name(base):
                    m = self.load(base)
                    if m:
                        for k, v in m.globals.items():
                            if not k.startswith('_'):
                                S.env[k] = v
                continue
            tgt = a.asname or a.name
            if self.prog.is_pkg_name(base):
                m = self.load(base)
                v = self.modattr(m, a.name) if m else None
                S.env[tgt] = v if v is not None else ExtV(base + '.' + a.name)
            else:
                S.env[tgt] = self.np.ext_attr(base + '.' + a.name)
        return S

    def s_FunctionDef(self, st, S):
        f = self.make_func(st, S)
        S.env[st.name] = f
        return S

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, S, cls=None, closure=None):
        fr = self.frames[-1]
        kind = 'func'
        for d in getattr(node, 'decorator_list', []):
            nm = d.attr if isinstance(d, ast.Attribute) else (d.id if isinstance(d, ast.Name) else None)
            if nm == 'staticmethod':
                kind = 'static'
            elif nm == 'classmethod':
                kind = 'class'
            elif nm in ('property', 'cached_property'):
                kind = 'property'
            elif nm == 'setter':
                kind = 'setter'
        defaults = [self.ev(d, S) for d in node.args.defaults]
        kwd = {}
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d, S)
        if closure is None and fr.func is not None:
            closure = S.env
        qual = getattr(node, 'name', '<lambda>')
        if cls is not None:
            qual = cls + '.' + qual
        elif fr.func is not None:
            qual = fr.func.qual + '.' + qual
        return FuncV(node, fr.mod, None, closure, kind, defaults, kwd, qual)

    def s_ClassDef(self, st, S):
        fr = self.frames[-1]
        bases = []
        for b in st.bases:
            v = self.ev(b, S)
            if isinstance(v, ExtV) and v.path == 'builtins.object':
                continue
            bases.append(v)
        attrs = {}
        c = ClassV(st.name, fr.mod, st, bases, attrs)
        cenv = dict(S.env)
        base_keys = set(cenv)
        CS = State(cenv, S.heap)
        for x in st.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.make_func(x, CS, cls=st.name, closure=(S.env if fr.func is not None else None))
                f.cls = c
                if f.kind == 'setter':
                    f.kind = 'func'
                    c.setters[x.name] = f
                    continue
                attrs[x.name] = f
                cenv[x.name] = f
            else:
                before = dict(cenv)
                self.exec_stmt(x, CS)
                for k, v in cenv.items():
                    if k not in before or before[k] is not v:
                        attrs[k] = v
        S.env[st.name] = c
        return S

    def s_Return(self, st, S):
        v = self.ev(st.value, S) if st.value is not None else NONE
        self.frames[-1].rets.append((S, v, st))
        if self.special:
            self.frames[-1].special = 1
        return None

    def s_Raise(self, st, S):
        if st.exc is not None:
            try:
                v = self.ev(st.exc, S)
            except Bottom:
                v = None
        raise Bottom('raise')

    def s_Assert(self, st, S):
        t = self.truth(self.ev(st.test, S), S)
        if t is False:
            raise Bottom('assert')
        self.refine(st.test, S, True)
        return S

    def s_Global(self, st, S):
        self.frames[-1].params = tuple(self.frames[-1].params) + tuple(('global', n) for n in st.names)
        return S

    def s_Delete(self, st, S):
        for t in st.targets:
            if isinstance(t, ast.Name):
                S.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, S)
                k = self.ev(t.slice, S)
                self.del_item(o, k, S, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, S)
                if isinstance(o, Ref):
                    h = self.hget(S, o)
                    if h.kind == 'obj':
                        it = dict(h.items)
                        it.pop(t.attr, None)
                        self.hset(S, o, h.rep(items=it))
        return S

    def s_Assign(self, st, S):
        v = self.ev(st.value, S)
        for t in st.targets:
            self.assign(t, v, S)
        return S

    def s_AnnAssign(self, st, S):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, S), S)
        return S

    def s_AugAssign(self, st, S):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, S, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, S)
            cur = self.getattr(o, t.attr, S, t)
        else:
            o = self.ev(t.value, S)
            k = self.ev(t.slice, S)
            cur = self.getitem(o, k, S, t)
        r = self.ev(st.value, S)
        inplace = self.aug_inplace(cur, st.op, r, S, st)
        if inplace is not None:
            v = inplace
        else:
            v = self.binop(st.op, cur, r, S, st)
            # in-place numpy arithmetic on an aliased array
            own = self.owners(cur, S)
            if own:
                kind = cur.kind if isinstance(cur, Num) else '?'
                if kind != 's' and not isinstance(t, ast.Subscript):
                    self.event('mut', tuple(sorted(own)), 'in-place arithmetic', st)
                    if isinstance(v, Num):
                        v = Num(v.pay, own, v.kind)
                elif kind != 's' and isinstance(t, ast.Subscript):
                    # element update; store below reports on the container
                    pass
        if isinstance(t, ast.Name):
            S.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, v, S, t)
        else:
            self.setitem(o, k, v, S, t, aug=True)
        return S

    def aug_inplace(self, cur, op, r, S, node):
        """list += mutates in place."""
        if isinstance(op, ast.Add) and isinstance(cur, Ref):
            h = self.hget(S, cur)
            if h.kind == 'list':
                self.list_extend(cur, r, S, node)
                return cur
        return None

    def s_If(self, st, S):
        c = self.ev(st.test, S)
        t = self.truth(c, S)
        if t is True:
            self.refine(st.test, S, True)
            return self.exec_block(st.body, S)
        if t is False:
            self.refine(st.test, S, False)
            return self.exec_block(st.orelse, S)
        S2 = S.copy()
        S1 = S
        n = self.frames[-1].node
        sp = self.is_eqmask(c)
        self.cond_deps |= self.deps(c, S)
        strict = self.strict_cond(c, S)
        if not strict:
            self.frames[-1].lax = True
        if sp:
            self.special += 1
        try:
            ok1 = self.refine(st.test, S1, True)
            R1 = self.exec_block(st.body, S1) if ok1 is not False else None
        except Bottom:
            R1 = None
        finally:
            if sp:
                self.special -= 1
        self.frames[-1].node = n
        try:
            ok2 = self.refine(st.test, S2, False)
            R2 = self.exec_block(st.orelse, S2) if ok2 is not False else None
        except Bottom:
            R2 = None
        self.frames[-1].node = n
        if sp:
            old, self.soft = self.soft, True
            try:
                return self.join_state(R1, R2, st)
            finally:
                self.soft = old
        if strict:
            olds, self.D.wstrict = self.D.wstrict, True
            try:
                return self.join_state(R1, R2, st)
            finally:
                self.D.wstrict = olds
        return self.join_state(R1, R2, st)

    def strict_cond(self, c, S):
        """the branch condition can not tell whether the profile sits at the origin."""
        if not self.pos_labels or self.is_eqmask(c):
            return False
        d = self.deps(c, S)
        return bool(d) and not (d & self.pos_labels)

    def s_For(self, st, S):
        it = self.ev(st.iter, S)
        items, summ = self.iterate(it, S, st.iter)
        fr = self.frames[-1]
        loop = {'brk': [], 'cont': []}
        fr.loops.append(loop)
        try:
            if items is not None and len(items) <= self.MAXUNROLL:
                for v in items:
                    if S is None:
                        break
                    loop['cont'] = []
                    self.assign(st.target, v, S)
                    S = self.exec_block(st.body, S)
                    for c in loop['cont']:
                        S = self.join_state(S, c, st)
            else:
                if items is not None:
                    for v in items:
                        summ = v if summ is None else self.join(summ, v, S, st)
                if summ is None:
                    summ = TOP
                self.widening += 1
                try:
                    for k in range(3):
                        S0 = S.copy()
                        loop['cont'] = []
                        self.assign(st.target, summ, S)
                        R = self.exec_block(st.body, S)
                        for c in loop['cont']:
                            R = self.join_state(R, c, st)
                        S = self.join_state(S0, R, st)
                finally:
                    self.widening -= 1
        finally:
            fr.loops.pop()
        if S is not None and st.orelse:
            S = self.exec_block(st.orelse, S)
        for b in loop['brk']:
            S = self.join_state(S, b, st)
        return S

    def s_While(self, st, S):
        fr = self.frames[-1]
        loop = {'brk': [], 'cont': []}
        fr.loops.append(loop)
        exits = None
        try:
            # unroll while the test is a known constant
            for _ in range(self.MAXUNROLL):
                t = self.truth(self.while_test(st, S), S)
                if t is None:
                    break
                if t is False:
                    exits = S
                    S = None
                    break
                if self.is_const_true(st.test):
                    break
                loop['cont'] = []
                S = self.exec_block(st.body, S)
                for c in loop['cont']:
                    S = self.join_state(S, c, st)
                if S is None:
                    break
            if S is not None:
                self.widening += 1
                try:
                    for k in range(3):
                        t = self.truth(self.while_test(st, S), S)
                        if t is not True:
                            exits = self.join_state(exits, S.copy(), st)
                        S0 = S.copy()
                        self.refine(st.test, S, True)
                        loop['cont'] = []
                        R = self.exec_block(st.body, S)
                        for c in loop['cont']:
                            R = self.join_state(R, c, st)
                        S = self.join_state(S0, R, st)
                    t = self.truth(self.while_test(st, S), S)
                    if t is not True:
                        exits = self.join_state(exits, S, st)
                finally:
                    self.widening -= 1
        finally:
            fr.loops.pop()
        S = exits
        if S is not None and st.orelse:
            S = self.exec_block(st.orelse, S)
        for b in loop['brk']:
            S = self.join_state(S, b, st)
        return S

    def while_test(self, st, S):
        old, self.no_decide = self.no_decide, True
        try:
            return self.ev(st.test, S)
        finally:
            self.no_decide = old

    no_decide = False

    @staticmethod
    def is_const_true(e):
        return isinstance(e, ast.Constant) and bool(e.value)

    def s_Break(self, st, S):
        self.frames[-1].loops[-1]['brk'].append(S)
        return None

    def s_Continue(self, st, S):
        self.frames[-1].loops[-1]['cont'].append(S)
        return None

    def s_Try(self, st, S):
        only_imports = all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in st.body)
        S0 = S.copy()
        R = self.exec_block(st.body, S)
        out = None
        body_alive = R is not None
        R1 = R.copy() if R is not None else None
        if R is not None and st.orelse:
            R = self.exec_block(st.orelse, R)
        drop = len(st.body) == 1 and isinstance(st.body[0], ast.Delete) and all(isinstance(t, ast.Attribute) for t in st.body[0].targets) \
            and len(st.body[0].targets) == 1 and all(len(h.body) == 1 and isinstance(h.body[0], ast.Pass) for h in st.handlers)
        if body_alive and (only_imports or drop or self.cannot_raise(st.body, S0)):
            out = R
        else:
            out = R
            for h in st.handlers:
                H = self.join_state(S0.copy(), R1.copy() if R1 is not None else None, st)
                if h.name:
                    H.env[h.name] = TOP
                H = self.exec_block(h.body, H)
                out = self.join_state(out, H, st)
        if st.finalbody:
            if out is None:
                out = None
            else:
                out = self.exec_block(st.finalbody, out)
        return out

    def cannot_raise(self, body, S0):
        """body only reads names, attributes and statically known container elements."""
        def ok(e):
            if isinstance(e, (ast.Name, ast.Constant)):
                return True
            if isinstance(e, ast.Attribute):
                return ok(e.value)
            if isinstance(e, ast.UnaryOp):
                return ok(e.operand)
            if isinstance(e, ast.Subscript):
                if not ok(e.value) or not ok(e.slice):
                    return False
                v, i = self.ev(e.value, S0), self.ev(e.slice, S0)
                if not isinstance(i, Const):
                    return False
                if isinstance(v, Tup):
                    return True
                if isinstance(v, Ref):
                    h = self.hget(S0, v)
                    return h.kind in ('list', 'dict') and h.summ is None and h.items is not None
                return False
            return False
        return len(body) <= 3 and all(isinstance(x, ast.Assign) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in x.targets)
                                      and ok(x.value) for x in body)

    def s_With(self, st, S):
        for it in st.items:
            v = self.ev(it.context_expr, S)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if isinstance(v, ExtObj) else TOP, S)
        return self.exec_block(st.body, S)

    def s_Nonlocal(self, st, S):
        return S

    def s_Match(self, st, S):
        return S

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, S):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if fr.params and ('global', t.id) in fr.params:
                self.event('global_write', fr.mod.name + '.' + t.id, None, t)
            S.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = None
            if not star:
                parts = self.unpack(v, n, S, t)
                for e, p in zip(t.elts, parts):
                    self.assign(e, p, S)
            else:
                items, summ = self.iterate(v, S, t)
                i = star[0]
                if items is not None and len(items) >= n - 1:
                    k = len(items) - (n - 1)
                    for e, p in zip(t.elts[:i], items[:i]):
                        self.assign(e, p, S)
                    self.assign(t.elts[i].value, self.new_list(S, items[i:i + k]), S)
                    for e, p in zip(t.elts[i + 1:], items[i + k:]):
                        self.assign(e, p, S)
                else:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, summ or TOP, S)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, S)
            if t.attr in ('real', 'imag', 'flat') and isinstance(o, Num):
                if o.own:
                    self.event('mut', tuple(sorted(o.own)), 'array part assignment', t)
                pv = self.pay(v, S)
                if t.attr == 'imag':
                    pv = self.D.mul(pv, self.D.const(1j), self.where(t))
                sym = None
                if poly.ML and t.attr != 'flat':
                    sv = self.pay(v, S).sym
                    os_ = o.pay.sym
                    if os_ is None and o.pay == self.D.zero:
                        os_ = 0
                    if sv is not None and os_ is not None:
                        ml = poly.mlval
                        os_ = ml.const(0) if isinstance(os_, int) else ml.lift(os_)
                        sv = ml.real(ml.lift(sv))
                        sym = ml.mkcx(sv, ml.imag(os_)) if t.attr == 'real' else ml.mkcx(ml.real(os_), sv)
                pv = G(pv.u, pv.p, pv.w, sym, pv.deps, True)
                if sym is not None:
                    nv = Num(G(pv.u, pv.p, pv.w, sym, pv.deps | o.pay.deps, True), o.own, o.kind)
                    if isinstance(t.value, ast.Name):
                        S.env[t.value.id] = nv
                    else:
                        self.assign(t.value, nv, S)
                    return
                full = all(x in ('Z', 'T') for x in o.pay.u + o.pay.p if not isinstance(x, (Bad, poly.Poly))) and not o.pay.deps
                nv = Num(pv if full else self.D.join(o.pay, pv, self.where(t)), o.own, o.kind)
                if isinstance(t.value, ast.Name):
                    S.env[t.value.id] = nv
                else:
                    self.assign(t.value, nv, S)
                return
            self.setattr(o, t.attr, v, S, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, S)
            k = self.ev(t.slice, S)
            self.setitem(o, k, v, S, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, S)

    def unpack(self, v, n, S, node):
        if isinstance(v, Choice):
            cols = None
            for a in v.alts:
                if isinstance(a, Const) and a.v is None:
                    continue
                p = self.unpack(a, n, S, node)
                cols = p if cols is None else [self.join(x, y, S, node) for x, y in zip(cols, p)]
            return cols or [TOP] * n
        items, summ = self.iterate(v, S, node)
        if items is not None:
            if len(items) == n:
                return list(items)
            self.event('unpack_mismatch', (len(items), n), None, node)
            raise Bottom('unpack')
        return [summ if summ is not None else TOP] * n

    def setattr(self, o, name, v, S, node):
        if isinstance(o, Choice):
            for a in o.alts:
                self.setattr_one(a, name, v, S, node, weak=True)
            return
        self.setattr_one(o, name, v, S, node)

    def setattr_one(self, o, name, v, S, node, weak=False):
        if isinstance(o, Ref):
            h = self.hget(S, o)
            if h.kind == 'obj':
                f, c = h.cls.lookup_setter(name)
                if f is not None:
                    self.call_func(f, [o, v], {}, S, node)
                    return
                if h.own:
                    self.event('mut', tuple(sorted(h.own)), 'attribute %s of a caller object assigned' % name, node)
                if self.pre_ids is not None and o.id in self.pre_ids:
                    self.note_write(o, h, name, v, node, S)
                it = dict(h.items)
                if weak and name in it:
                    v = self.join(it[name], v, S, node)
                it[name] = v
                self.hset(S, o, h.rep(items=it, wr=h.wr | {name}))
        elif isinstance(o, ClassV):
            self.event('class_write', o.qual + '.' + name, None, node)
            o.attrs[name] = v
        elif isinstance(o, ModV):
            self.event('global_write', o.mod.name + '.' + name, None, node)

    def note_write(self, o, h, name, v, node, S):
        k = (o.id, name)
        self.attr_writes.setdefault(k, []).append((self.where(node), self.deps(v, S), h.cls.name, self.stack()))

    def setitem(self, o, k, v, S, node, aug=False, weak=False):
        if isinstance(o, Choice):
            for a in o.alts:
                self.setitem(a, k, v, S, node, aug, weak=True)
            return
        if isinstance(o, Ref):
            h = self.hget(S, o)
            if h.kind in ('list', 'dict'):
                if h.own:
                    self.event('mut', tuple(sorted(h.own)), 'item assignment', node)
                elif o.id in self.prog.static_heap and self.frames[-1].func is not None:
                    self.event('static_write', o.id, 'item assignment on module-level container', node)
                if self.pre_ids is not None and o.id in self.pre_ids and not h.own:
                    self.attr_writes.setdefault((o.id, '[]'), []).append((self.where(node), self.deps(v, S), h.kind, self.stack()))
                if h.kind == 'dict':
                    if isinstance(k, Const):
                        it = dict(h.items)
                        try:
                            it[k.v] = self.join(it[k.v], v, S, node) if weak and k.v in it else v
                        except TypeError:
                            pass
                        self.hset(S, o, h.rep(items=it))
                    elif isinstance(k, Choice) and all(isinstance(a, Const) for a in k.alts):
                        it = dict(h.items)
                        for a in k.alts:
                            it[a.v] = self.join(it[a.v], v, S, node) if a.v in it else v
                        self.hset(S, o, h.rep(items=it))
                    else:
                        s = v if h.summ is None else self.join(h.summ, v, S, node)
                        it = {kk: self.join(x, v, S, node) for kk, x in h.items.items()}
                        self.hset(S, o, h.rep(items=it, summ=s))
                else:
                    if isinstance(k, Const) and isinstance(k.v, int) and h.items is not None and -len(h.items) <= k.v < len(h.items):
                        it = list(h.items)
                        it[k.v] = self.join(it[k.v], v, S, node) if weak else v
                        self.hset(S, o, h.rep(items=tuple(it)))
                    elif h.items is not None:
                        self.hset(S, o, h.rep(items=tuple(self.join(x, v, S, node) for x in h.items)))
                    else:
                        s = v if h.summ is None else self.join(h.summ, v, S, node)
                        self.hset(S, o, h.rep(summ=s))
            elif h.kind == 'obj':
                f, c = h.cls.lookup('__setitem__')
                if isinstance(f, FuncV):
                    self.call_func(f, [o, k, v], {}, S, node)
            return
        if isinstance(o, (Num, Top)):
            if isinstance(o, Top):
                self.lost_stores.append(self.where(node))
            if o.own:
                self.event('mut', tuple(sorted(o.own)), 'array element assignment', node)
            # weak update of the variable(s) holding this array: rebind by target expression
            self.rebind_array(node.value, o, k, v, S, node)
            return
        if isinstance(o, Tup) and o.arr:
            self.rebind_array(node.value, o, k, v, S, node)

    def rebind_array(self, texpr, o, k, v, S, node):
        m = self.mask_of(k) if poly.ML else None
        if m is False:
            return
        if m is True and not isinstance(o, Top) and self.is_numlike(v, S) and not isinstance(v, Tup):
            nv = Num(self.pay(v, S), self.owners(o, S), 'a')
        elif isinstance(o, Tup):
            if isinstance(k, Const) and isinstance(k.v, int) and -len(o.items) <= k.v < len(o.items):
                it = list(o.items)
                it[k.v] = v
                nv = Tup(it, True)
            else:
                nv = Tup([self.join(x, v, S, node) for x in o.items], True)
        else:
            if isinstance(o, Top):
                return
            if isinstance(v, Const) and self.is_numlike(v) and self.is_eqmask(k):
                nv = Num(self.special_join(o.pay, self.pay(v, S), False), o.own, o.kind)
            elif not o.pay.deps and o.pay.u and all(isinstance(x, poly.Poly) and x.is_zero() for x in o.pay.u):
                nv = Num(self.softjoin(o.pay, self.pay(v, S)), o.own, 'a')
            elif not self.is_numlike(v, S):
                nv = Num(self.D.join(o.pay, self.pay(v, S), self.where(node)), o.own, o.kind)
            else:
                pv = self.pay(v, S)
                if isinstance(k, (Num, Top)):
                    pv = self.D.withdeps(pv, self.deps(k, S))
                full = isinstance(k, Tup) and False
                nv = Num(self.D.join(o.pay, pv, self.where(node)), o.own, 'a')
        old = o

        def put(e):
            if isinstance(e, ast.Name):
                if e.id in S.env:
                    S.env[e.id] = nv
                    # same python object bound to other local names
                    for kk, vv in list(S.env.items()):
                        if vv is old:
                            S.env[kk] = nv
            elif isinstance(e, ast.Attribute):
                try:
                    oo = self.ev(e.value, S)
                except Bottom:
                    return
                if isinstance(oo, Ref):
                    h = self.hget(S, oo)
                    if h.kind == 'obj':
                        if self.pre_ids is not None and oo.id in self.pre_ids:
                            self.attr_writes.setdefault((oo.id, e.attr + '[]'), []).append(
                                (self.where(node), self.deps(v, S), h.cls.name, self.stack()))
                        it = dict(h.items)
                        it[e.attr] = nv
                        self.hset(S, oo, h.rep(items=it))
            elif isinstance(e, ast.Subscript):
                try:
                    oo = self.ev(e.value, S)
                    kk = self.ev(e.slice, S)
                except Bottom:
                    return
                if isinstance(oo, Ref):
                    h = self.hget(S, oo)
                    if h.kind == 'dict' and isinstance(kk, Const) and kk.v in h.items:
                        it = dict(h.items)
                        it[kk.v] = nv
                        self.hset(S, oo, h.rep(items=it))
                    elif h.kind == 'list' and isinstance(kk, Const) and isinstance(kk.v, int) and h.items is not None and -len(h.items) <= kk.v < len(h.items):
                        it = list(h.items)
                        it[kk.v] = nv
                        self.hset(S, oo, h.rep(items=tuple(it)))
                elif isinstance(oo, Num):
                    put(e.value)
        put(texpr)

    def del_item(self, o, k, S, node):
        if isinstance(o, Ref):
            h = self.hget(S, o)
            if h.own:
                self.event('mut', tuple(sorted(h.own)), 'item deletion', node)
            if h.kind == 'dict' and isinstance(k, Const):
                it = dict(h.items)
                it.pop(k.v, None)
                self.hset(S, o, h.rep(items=it))
            elif h.kind == 'list':
                if isinstance(k, Const) and isinstance(k.v, int) and h.items is not None and -len(h.items) <= k.v < len(h.items):
                    it = list(h.items)
                    del it[k.v]
                    self.hset(S, o, h.rep(items=tuple(it)))
                else:
                    self.hset(S, o, self.blur_list(h, S, node))

    def blur_list(self, h, S, node):
        s = h.summ
        if h.items is not None:
            for x in h.items:
                s = x if s is None else self.join(s, x, S, node)
        return h.rep(items=None, summ=s)

    def list_extend(self, ref, r, S, node):
        h = self.hget(S, ref)
        if h.own:
            self.event('mut', tuple(sorted(h.own)), 'list extended in place', node)
        items, summ = self.iterate(r, S, node)
        if h.items is not None and items is not None and not self.widening:
            self.hset(S, ref, h.rep(items=h.items + tuple(items)))
        else:
            if items is not None:
                for x in items:
                    summ = x if summ is None else self.join(summ, x, S, node)
            b = self.blur_list(h, S, node)
            s = b.summ
            if summ is not None:
                s = summ if s is None else self.join(s, summ, S, node)
            self.hset(S, ref, b.rep(summ=s))

    # ------------------------------------------------------------------ joins
    def join_state(self, A, B, node=None):
        if A is None:
            return B
        if B is None:
            return A
        if A is B:
            return A
        S = A
        ha, hb = A.heap, B.heap
        if ha is not hb:
            for i, hB in hb.items():
                hA = ha.get(i)
                if hA is None:
                    # static object modified only on one side
                    st = self.prog.static_heap.get(i)
                    if st is not None:
                        ha[i] = self.join_hobj(st, hB, S, node)
                    else:
                        ha[i] = hB
                elif hA is not hB:
                    ha[i] = self.join_hobj(hA, hB, S, node)
        ea, eb = A.env, B.env
        if ea is not eb:
            for k, vb in eb.items():
                if k in ea:
                    va = ea[k]
                    if va is not vb:
                        ea[k] = self.join(va, vb, S, node)
                else:
                    ea[k] = vb
        return S

    def join_hobj(self, a, b, S, node):
        if a.kind != b.kind:
            return a
        if a.kind == 'list':
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return a.rep(items=tuple(x if x is y else self.join(x, y, S, node) for x, y in zip(a.items, b.items)), own=a.own | b.own)
            a2, b2 = self.blur_list(a, S, node), self.blur_list(b, S, node)
            s = a2.summ if b2.summ is None else (b2.summ if a2.summ is None else self.join(a2.summ, b2.summ, S, node))
            return a.rep(items=None, summ=s, own=a.own | b.own)
        if a.kind == 'set':
            return a.rep(items=None, summ=TOP)
        it = dict(a.items)
        for k, v in b.items.items():
            if k in it:
                if it[k] is not v:
                    it[k] = self.join(it[k], v, S, node)
            else:
                it[k] = v
        s = a.summ if b.summ is None else (b.summ if a.summ is None else self.join(a.summ, b.summ, S, node))
        return a.rep(items=it, summ=s, own=a.own | b.own, wr=a.wr & b.wr)

    def is_numlike(self, v, S=None):
        if isinstance(v, Num):
            return True
        if isinstance(v, Const):
            return isinstance(v.v, (int, float, complex, bool)) and v.v is not None
        return False

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Const):
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, Ref):
            return a.id == b.id
        if isinstance(a, FuncV):
            return a.node is b.node
        if isinstance(a, Bound):
            return self.same(a.func, b.func) and self.same(a.self_, b.self_)
        if isinstance(a, ExtV):
            return a.path == b.path
        if isinstance(a, ExtObj):
            return a.path == b.path
        if isinstance(a, Num):
            return a.pay.same(b.pay) and a.own == b.own
        if isinstance(a, ModV):
            return a.mod is b.mod
        return False

    def join(self, a, b, S, node=None):
        if a is b or self.same(a, b):
            if isinstance(a, Const) and a.deps != b.deps:
                return Const(a.v, a.deps | b.deps)
            return a
        if isinstance(a, Top) or isinstance(b, Top):
            d = self.deps(a, S) | self.deps(b, S)
            return Top(d, self.owners(a, S) | self.owners(b, S), self.inv([a, b], {}, S))
        na, nb = self.is_numlike(a), self.is_numlike(b)
        if na and nb:
            pa, pb = self.pay(a, S), self.pay(b, S)
            if self.widening:
                pj = self.widen(pa, pb)
            elif self.soft and (isinstance(a, Const) or isinstance(b, Const)) and self.D.track:
                pj = self.special_join(pa, pb, isinstance(a, Const))
            else:
                pj = self.D.join(pa, pb, self.where(node))
            ka = a.kind if isinstance(a, Num) else 's'
            kb = b.kind if isinstance(b, Num) else 's'
            own = (a.own if isinstance(a, Num) else EMPTY) | (b.own if isinstance(b, Num) else EMPTY)
            return Num(pj, own, ka if ka == kb else '?')
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join(x, y, S, node) for x, y in zip(a.items, b.items)], a.arr and b.arr)
        if isinstance(a, Tup) and a.arr and nb or isinstance(b, Tup) and b.arr and na:
            t, n = (a, b) if isinstance(a, Tup) else (b, a)
            return Tup([self.join(x, n, S, node) for x in t.items], True)
        if isinstance(a, Ref) and isinstance(b, Ref) and S is not None:
            x, y = self.hget(S, a), self.hget(S, b)
            if x.kind == y.kind and x.kind in ('list', 'dict'):
                return self.alloc(S, self.join_hobj(x, y, S, node))
        alts = []
        for v in (a.alts if isinstance(a, Choice) else (a,)) + (b.alts if isinstance(b, Choice) else (b,)):
            done = False
            for i, w in enumerate(alts):
                if self.same(v, w):
                    done = True
                    break
                if self.is_numlike(v) and self.is_numlike(w) or (
                        isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items)) or (
                        isinstance(v, Ref) and isinstance(w, Ref) and S is not None
                        and self.hget(S, v).kind == self.hget(S, w).kind and self.hget(S, v).kind in ('list', 'dict')):
                    alts[i] = self.join(w, v, S, node)
                    done = True
                    break
            if not done:
                alts.append(v)
        if len(alts) == 1:
            return alts[0]
        if len(alts) > 6:
            d = EMPTY
            for v in alts:
                d |= self.deps(v, S)
            return Top(d)
        return Choice(alts)

    def special_join(self, a, b, a_lit):
        """join with a literal used only at an isolated special point (== 0, nan): adopt the other's grade."""
        o, l = (b, a) if a_lit else (a, b)
        return G(o.u, o.p, o.w, None, a.deps | b.deps, o.cx)

    def is_eqmask(self, v):
        return isinstance(v, Num) and v.pay.sym is EQMASK

    def widen(self, a, b):
        def w(x, y):
            if x is y or x == y:
                return x
            if isinstance(x, Bad):
                return x
            if isinstance(y, Bad):
                return y
            if x in ('Z', 'L', 'B') and not isinstance(x, G):
                return y
            if y in ('Z', 'L', 'B'):
                return x
            return 'T'
        return G(tuple(w(x, y) for x, y in zip(a.u, b.u)), tuple(w(x, y) for x, y in zip(a.p, b.p)),
                 tuple(x if x == y else (x if isinstance(x, Bad) else y if isinstance(y, Bad) else 'T') for x, y in zip(a.w, b.w)),
                 a.sym if a.sym == b.sym else None, a.deps | b.deps)

    # ------------------------------------------------------------------ projections
    def pay(self, v, S):
        D = self.D
        if isinstance(v, Num):
            return v.pay
        if isinstance(v, Const):
            if isinstance(v.v, (int, float, complex, bool)):
                g = D.const(v.v)
                return D.withdeps(g, v.deps) if v.deps else g
            return D.withdeps(D.plain, v.deps)
        if isinstance(v, Top):
            return D.withdeps(D.top if v.g is None else v.g, v.deps)
        if isinstance(v, Tup):
            r = None
            for x in v.items:
                p = self.pay(x, S)
                r = p if r is None else self.softjoin(r, p)
            return r if r is not None else D.plain
        if isinstance(v, Choice):
            r = None
            for x in v.alts:
                if isinstance(x, Const) and x.v is None:
                    continue
                p = self.pay(x, S)
                r = p if r is None else D.join(r, p, self.where())
            return r if r is not None else D.top
        if isinstance(v, Ref):
            h = self.hget(S, v)
            if h.kind == 'list':
                r = None
                xs = list(h.items or ())
                if h.summ is not None:
                    xs.append(h.summ)
                for x in xs:
                    p = self.pay(x, S)
                    r = p if r is None else self.softjoin(r, p)
                return r if r is not None else D.plain
        return D.withdeps(D.top, self.deps(v, S))

    def inv(self, args, kw, S):
        """grade bound of an unknown function of these values: neutral in every component in which all are neutral."""
        D = self.D
        if not D.track:
            return None
        u, p, w = list(D.plain.u), list(D.plain.p), list(D.plain.w)
        for v in list(args) + list(kw.values()):
            for g in self.all_pays(v, S):
                for i, x in enumerate(g.u):
                    if not (x in ('Z', 'L', 'B') or isinstance(x, poly.Poly) and x.is_zero()):
                        u[i] = 'T'
                for i, x in enumerate(g.p):
                    if x not in (0, 'Z', 'L', 'B'):
                        p[i] = 'T'
                for i, x in enumerate(g.w):
                    if not (isinstance(x, poly.Poly) and x.is_zero()):
                        w[i] = 'T'
        if all(x == 'T' for x in u + p + w):
            return None
        return G(tuple(u), tuple(p), tuple(w))

    def all_pays(self, v, S, depth=0):
        if isinstance(v, Num):
            yield v.pay
        elif isinstance(v, Const):
            pass
        elif isinstance(v, Top):
            yield self.D.top if v.g is None else v.g
        elif isinstance(v, Tup):
            for x in v.items:
                yield from self.all_pays(x, S, depth + 1)
        elif isinstance(v, Choice):
            for x in v.alts:
                yield from self.all_pays(x, S, depth + 1)
        elif isinstance(v, Ref):
            h = self.hget(S, v)
            if depth > 4 or h.kind not in ('list', 'dict'):
                yield self.D.top
            else:
                for x in (h.items.values() if h.kind == 'dict' else (h.items or ())):
                    yield from self.all_pays(x, S, depth + 1)
                if h.summ is not None:
                    yield from self.all_pays(h.summ, S, depth + 1)
        elif isinstance(v, ExtV):
            pass
        elif isinstance(v, ExtMeth):
            yield from self.all_pays(v.recv, S, depth + 1)
        elif isinstance(v, ExtObj):
            for x in list(v.args or ()) + list((v.kw or {}).values()):
                yield from self.all_pays(x, S, depth + 1)
        else:
            yield self.D.top

    def softjoin(self, a, b):
        """join of sibling array elements: disagreement is 'unknown', not an error."""
        def w(x, y):
            if x is y or x == y:
                return x
            if isinstance(x, Bad):
                return x
            if isinstance(y, Bad):
                return y
            if x in ('Z', 'L', 'B'):
                return y
            if y in ('Z', 'L', 'B'):
                return x
            return 'T'
        return G(tuple(w(x, y) for x, y in zip(a.u, b.u)), tuple(w(x, y) for x, y in zip(a.p, b.p)),
                 tuple(x if x == y else (x if isinstance(x, Bad) else y if isinstance(y, Bad) else 'T') for x, y in zip(a.w, b.w)),
                 a.sym if a.sym == b.sym else None, a.deps | b.deps)

    def owners(self, v, S):
        if isinstance(v, (Num, Top)):
            return v.own
        if isinstance(v, Choice):
            r = EMPTY
            for a in v.alts:
                r |= self.owners(a, S)
            return r
        if isinstance(v, Ref):
            return self.hget(S, v).own
        return EMPTY

    def deps(self, v, S, seen=None, depth=0):
        if isinstance(v, Num):
            return v.pay.deps
        if isinstance(v, (Const, Top, ExtObj)):
            return v.deps
        if isinstance(v, Tup):
            r = EMPTY
            for x in v.items:
                r |= self.deps(x, S, seen, depth)
            return r
        if isinstance(v, Choice):
            r = EMPTY
            for x in v.alts:
                r |= self.deps(x, S, seen, depth)
            return r
        if isinstance(v, Ref) and S is not None:
            seen = seen if seen is not None else set()
            if v.id in seen or depth > 6:
                return EMPTY
            seen.add(v.id)
            h = self.hget(S, v)
            r = EMPTY
            xs = []
            if h.kind in ('list', 'set'):
                xs = list(h.items or ())
            else:
                xs = list(h.items.values())
            if h.summ is not None:
                xs.append(h.summ)
            for x in xs:
                r |= self.deps(x, S, seen, depth + 1)
            return r
        if isinstance(v, Bound):
            return self.deps(v.self_, S, seen, depth + 1)
        return EMPTY

    def mknum(self, pay, kind='?', own=EMPTY):
        return Num(pay, own, kind)

    def bool_unknown(self, *vals, S=None):
        d = EMPTY
        for v in vals:
            d |= self.deps(v, S)
        return Num(self.D.withdeps(self.D.plain, d), EMPTY, '?')

    # ------------------------------------------------------------------ truth / refine
    def truth(self, v, S):
        if isinstance(v, Const):
            try:
                return bool(v.v)
            except Exception:
                return None
        if isinstance(v, Tup):
            if v.arr:
                return None
            return len(v.items) > 0
        if isinstance(v, Ref):
            h = self.hget(S, v)
            if h.kind == 'list':
                if h.items is not None:
                    return len(h.items) > 0
                return None
            if h.kind == 'dict':
                if h.items:
                    return True
                return None if h.summ is not None else False
            if h.kind == 'obj':
                return True
            return None
        if isinstance(v, (FuncV, ClassV, Bound, ModV)):
            return True
        if isinstance(v, Choice):
            ts = {self.truth(a, S) for a in v.alts}
            if len(ts) == 1:
                return ts.pop()
            return None
        return None

    def refine(self, e, S, pos):
        """narrow the state by the truth of e; returns False if definitely infeasible."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, S, not pos)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) and pos or isinstance(e.op, ast.Or) and not pos:
                for x in e.values:
                    if self.refine(x, S, pos) is False:
                        return False
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
                want = pos if isinstance(op, (ast.Is, ast.Eq)) else not pos
                key = self.lval_get(l, S)
                if key is None:
                    return None
                v = key
                if isinstance(v, Choice):
                    keep = []
                    for a in v.alts:
                        if isinstance(a, Const):
                            eq = a.v is r.value if r.value is None else (type(a.v) is type(r.value) and a.v == r.value or a.v == r.value)
                            if bool(eq) == want:
                                keep.append(a)
                        elif isinstance(a, (Num, Top)) and r.value is not None:
                            keep.append(a)
                        else:
                            # non-constant alternative is never None
                            if r.value is None:
                                if not want:
                                    keep.append(a)
                            elif not want:
                                keep.append(a)
                    if not keep:
                        return False
                    self.lval_set(l, keep[0] if len(keep) == 1 else Choice(keep), S)
                elif isinstance(v, Top) and want and r.value is not None and isinstance(r.value, str):
                    self.lval_set(l, Const(r.value, v.deps), S)
                elif isinstance(v, Top) and want and r.value is None:
                    self.lval_set(l, NONE, S)
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            v = self.lval_get(e.args[0], S)
            if v is None:
                return None
            if isinstance(v, Choice):
                keep = []
                c = self.ev(e.args[1], S)
                for a in v.alts:
                    t = self.np.isinstance_(a, c, S)
                    if t is None or t == pos:
                        keep.append(a)
                if not keep:
                    return False
                self.lval_set(e.args[0], keep[0] if len(keep) == 1 else Choice(keep), S)
            elif isinstance(v, Num):
                names = self.type_names(e.args[1])
                if names and names <= {'int', 'float', 'complex', 'number'}:
                    self.lval_set(e.args[0], Num(v.pay, v.own, 's' if pos else 'a'), S)
                elif names and names <= {'ndarray', 'list', 'tuple'}:
                    if not pos and v.kind == '?':
                        self.lval_set(e.args[0], Num(v.pay, v.own, 's'), S)
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.lval_get(e, S)
            if isinstance(v, Choice):
                keep = [a for a in v.alts if self.truth(a, S) in (None, pos)]
                if not keep:
                    return False
                self.lval_set(e, keep[0] if len(keep) == 1 else Choice(keep), S)
        return None

    @staticmethod
    def type_names(e):
        els = e.elts if isinstance(e, ast.Tuple) else [e]
        out = set()
        for x in els:
            if isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Attribute):
                out.add(x.attr)
            else:
                return None
        return out

    def lval_get(self, e, S):
        if isinstance(e, ast.Name):
            return S.env.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            o = S.env.get(e.value.id)
            if isinstance(o, Ref):
                h = self.hget(S, o)
                if h.kind == 'obj':
                    return h.items.get(e.attr)
        return None

    def lval_set(self, e, v, S):
        if isinstance(e, ast.Name):
            S.env[e.id] = v
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            o = S.env.get(e.value.id)
            if isinstance(o, Ref):
                h = self.hget(S, o)
                if h.kind == 'obj':
                    it = dict(h.items)
                    it[e.attr] = v
                    self.hset(S, o, h.rep(items=it))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, S):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return TOP
        return m(e, S)

    def e_Constant(self, e, S):
        if poly.ML and isinstance(e.value, float) and 0 < abs(1 - e.value) < 5e-5 and self.frames and self.frames[-1].func is not None:
            return Num(self.D.const(e.value), EMPTY, 's')       # 0.99999999 standing in for 1
        return Const(e.value)

    def e_Name(self, e, S):
        return self.name(e.id, S, e)

    def name(self, n, S, node):
        v = S.env.get(n)
        if v is not None:
            return v
        fr = self.frames[-1]
        f = fr.func
        if f is not None and f.closure is not None:
            c = f.closure
            if n in c:
                return c[n]
        v = fr.mod.globals.get(n)
        if v is not None:
            return v
        if n in _BUILTINS:
            if n in ('True', 'False', 'None'):
                return Const({'True': True, 'False': False, 'None': None}[n])
            return ExtV('builtins.' + n)
        self.event('undef', n, None, node)
        return TOP

    def e_Attribute(self, e, S):
        o = self.ev(e.value, S)
        return self.getattr(o, e.attr, S, e)

    def getattr(self, o, a, S, node):
        if isinstance(o, Choice):
            r = None
            for x in o.alts:
                if isinstance(x, Const) and x.v is None:
                    continue
                try:
                    v = self.getattr(x, a, S, node)
                except Bottom:
                    continue
                r = v if r is None else self.join(r, v, S, node)
            if r is None:
                raise Bottom('attribute of None')
            return r
        if isinstance(o, Ref):
            h = self.hget(S, o)
            if h.kind == 'obj':
                if a in h.items:
                    if self.pre_ids is not None and o.id in self.pre_ids and a not in h.wr:
                        self.attr_reads.setdefault((o.id, a), (self.where(node), h.cls.name, self.stack()))
                    return h.items[a]
                v, c = h.cls.lookup(a)
                if v is not None:
                    return self.bind(v, o, h.cls, S, node)
                if a == '__class__':
                    return h.cls
                if a == '__dict__':
                    return self.new_dict(S, h.items)
                g, c = h.cls.lookup('__getattr__')
                if isinstance(g, FuncV):
                    return self.call_func(g, [o, Const(a)], {}, S, node)
                if self.pre_ids is not None and o.id in self.pre_ids:
                    self.attr_reads.setdefault((o.id, a), (self.where(node), h.cls.name, self.stack()))
                if not h.cls.has_ext() and h.tag != 'opaque':
                    self.event('noattr', (h.cls.name, a), None, node)
                return TOP
            return ExtMeth(o, a)
        if isinstance(o, ModV):
            v = self.modattr(o.mod, a)
            if v is None:
                self.event('nomodattr', (o.mod.name, a), None, node)
                return TOP
            return v
        if isinstance(o, ExtV):
            return self.np.ext_attr(o.path + '.' + a)
        if isinstance(o, ClassV):
            v, c = o.lookup(a)
            if v is not None:
                if isinstance(v, FuncV) and v.kind == 'class':
                    return Bound(v, o)
                return v
            if a == '__name__':
                return Const(o.name)
            return TOP
        if isinstance(o, SuperV):
            mro = None
            if isinstance(o.self_, Ref):
                mro = self.hget(S, o.self_).cls.mro()
            elif isinstance(o.self_, ClassV):
                mro = o.self_.mro()
            if mro:
                i = mro.index(o.cls) if o.cls in mro else -1
                for c in mro[i + 1:]:
                    if a in c.attrs:
                        return self.bind(c.attrs[a], o.self_, c, S, node)
            if a == '__init__':
                return ExtV('builtins.object_init')
            return TOP
        if isinstance(o, Num):
            return self.np.num_attr(o, a, S, node)
        if isinstance(o, (Const, Tup)):
            if isinstance(o, Const) and isinstance(o.v, (int, float, complex)) and not isinstance(o.v, bool):
                return self.np.num_attr(Num(self.pay(o, S), EMPTY, 's'), a, S, node)
            if isinstance(o, Const) and o.v is None:
                raise Bottom('attribute of None')
            if isinstance(o, Tup) and o.arr and a == 'real':
                return o
            if isinstance(o, Tup) and o.arr and a == 'T':
                return self.np.transposed(o, S)
            if isinstance(o, Tup) and o.arr and a in ('shape', 'size', 'ndim'):
                sh = self.np.shape_of(o)
                if sh is None:
                    return TOP
                if a == 'shape':
                    return Tup([Const(n) for n in sh])
                n = 1
                for k in sh:
                    n *= k
                return Const(n if a == 'size' else len(sh))
            return ExtMeth(o, a)
        if isinstance(o, FuncV):
            if a == '__name__':
                return Const(o.name)
            return TOP
        if isinstance(o, Bound):
            return TOP
        if isinstance(o, ExtObj):
            return ExtMeth(o, a)
        if isinstance(o, Top):
            return ExtMeth(o, a)
        return TOP

    def bind(self, v, o, cls, S, node):
        if isinstance(v, FuncV):
            if v.kind == 'static':
                return v
            if v.kind == 'property':
                return self.call_func(v, [o], {}, S, node)
            if v.kind == 'class':
                return Bound(v, cls)
            return Bound(v, o)
        return v

    def e_Subscript(self, e, S):
        o = self.ev(e.value, S)
        k = self.ev(e.slice, S)
        return self.getitem(o, k, S, e)

    def e_Slice(self, e, S):
        lo = self.ev(e.lower, S) if e.lower is not None else NONE
        hi = self.ev(e.upper, S) if e.upper is not None else NONE
        st = self.ev(e.step, S) if e.step is not None else NONE
        return ExtObj('slice', (lo, hi, st))

    def e_Index(self, e, S):
        return self.ev(e.value, S)

    def e_ExtSlice(self, e, S):
        return Tup([self.ev(x, S) for x in e.dims])

    def slice_known(self, k):
        if isinstance(k, ExtObj) and k.path == 'slice':
            if all(isinstance(x, Const) and (x.v is None or isinstance(x.v, int)) for x in k.args):
                return slice(*[x.v for x in k.args])
        return None

    def getitem(self, o, k, S, node):
        if isinstance(o, Choice):
            r = None
            for x in o.alts:
                if isinstance(x, Const) and x.v is None:
                    continue
                try:
                    v = self.getitem(x, k, S, node)
                except Bottom:
                    continue
                r = v if r is None else self.join(r, v, S, node)
            if r is None:
                raise Bottom('item of nothing')
            return r
        if isinstance(k, Choice) and not isinstance(o, (Num, Top)):
            r = None
            for x in k.alts:
                try:
                    v = self.getitem(o, x, S, node)
                except Bottom:
                    continue
                r = v if r is None else self.join(r, v, S, node)
            if r is None:
                raise Bottom('item of nothing')
            return r
        if isinstance(o, Ref):
            h = self.hget(S, o)
            if h.kind == 'dict':
                if isinstance(k, Const):
                    try:
                        if k.v in h.items:
                            return h.items[k.v]
                    except TypeError:
                        return TOP
                    if h.summ is not None:
                        return h.summ
                    self.event('keyerror', k.v, None, node)
                    raise Bottom('KeyError')
                r = h.summ
                for v in h.items.values():
                    r = v if r is None else self.join(r, v, S, node)
                return r if r is not None else TOP
            if h.kind == 'list':
                sl = self.slice_known(k)
                if sl is not None:
                    if h.items is not None:
                        return self.new_list(S, h.items[sl])
                    return self.new_list(S, None, h.summ)
                if isinstance(k, Const) and isinstance(k.v, int) and h.items is not None:
                    if -len(h.items) <= k.v < len(h.items):
                        return h.items[k.v]
                    self.event('indexerror', k.v, None, node)
                    raise Bottom('IndexError')
                if isinstance(k, ExtObj) and k.path == 'slice':
                    b = self.blur_list(h, S, node)
                    return self.new_list(S, None, b.summ)
                b = self.blur_list(h, S, node)
                return b.summ if b.summ is not None else TOP
            if h.kind == 'obj':
                f, c = h.cls.lookup('__getitem__')
                if isinstance(f, FuncV):
                    return self.call_func(f, [o, k], {}, S, node)
            return TOP
        if isinstance(o, Tup):
            sl = self.slice_known(k)
            if sl is not None:
                return Tup(o.items[sl], o.arr)
            if isinstance(k, Const) and isinstance(k.v, int):
                if -len(o.items) <= k.v < len(o.items):
                    return o.items[k.v]
                raise Bottom('IndexError')
            if o.arr:
                ks = k.items if isinstance(k, Tup) and k.arr else None
                if isinstance(k, Ref):
                    hk = self.hget(S, k)
                    ks = hk.items if hk.kind == 'list' and hk.summ is None else None
                if ks is not None and all(isinstance(x, Const) for x in ks):
                    if all(isinstance(x.v, bool) for x in ks) and len(ks) == len(o.items) and ks:
                        return Tup([v for v, x in zip(o.items, ks) if x.v], True)
                    if all(isinstance(x.v, int) and not isinstance(x.v, bool) and -len(o.items) <= x.v < len(o.items) for x in ks):
                        return Tup([o.items[x.v] for x in ks], True)
            if o.arr and isinstance(k, Tup) and not k.arr and len(k.items) >= 1:
                if isinstance(k.items[0], Const) and isinstance(k.items[0].v, int) and -len(o.items) <= k.items[0].v < len(o.items):
                    rest = k.items[1:]
                    v = o.items[k.items[0].v]
                    return self.getitem(v, rest[0] if len(rest) == 1 else Tup(rest), S, node)
                s0 = self.slice_known(k.items[0])
                if s0 is not None:
                    rest = k.items[1:]
                    return Tup([self.getitem(v, rest[0] if len(rest) == 1 else Tup(rest), S, node) for v in o.items[s0]], True)
            r = None
            for v in o.items:
                r = v if r is None else self.join(r, v, S, node)
            return r if r is not None else TOP
        if isinstance(o, Num) and poly.ML:
            m = self.mask_of(k)
            if m is True:
                return Num(o.pay, EMPTY, 'a')
            if m is None and isinstance(k, ExtObj) and k.path == 'slice' and self.slice_known(k) == slice(None, None, None):
                return o
            if m is None and o.pay.sym is not None and o.pay.sym.is_const():
                return Num(o.pay, o.own, '?')
        if isinstance(o, Num):
            view = self.is_view_index(k)
            kd = self.deps(k, S)
            p = o.pay if not kd else self.D.withdeps(o.pay, kd)
            kind = 's' if isinstance(k, Const) and isinstance(k.v, int) else '?'
            if p.sym is not None:
                p = G(p.u, p.p, p.w, None, p.deps, p.cx)
            if kind == 's':
                kind = '?'
            return Num(p, o.own if view else EMPTY, kind)
        if isinstance(o, Const):
            if isinstance(o.v, str):
                sl = self.slice_known(k)
                if sl is not None:
                    return Const(o.v[sl])
                if isinstance(k, Const) and isinstance(k.v, int):
                    try:
                        return Const(o.v[k.v])
                    except IndexError:
                        raise Bottom('IndexError')
                return TOP
            if o.v is None:
                raise Bottom('item of None')
            if isinstance(o.v, (int, float)):
                return Num(self.pay(o, S))
            return TOP
        if isinstance(o, Top):
            return Top(o.deps | self.deps(k, S), o.own, o.g)
        if isinstance(o, ExtObj):
            return Top(o.deps, EMPTY, self.inv([o], {}, S))
        return TOP

    @staticmethod
    def mask_of(k):
        if isinstance(k, Tup) and len(k.items) == 1:
            k = k.items[0]
        return k.v if isinstance(k, Const) and isinstance(k.v, bool) else None

    def is_view_index(self, k):
        """basic indexing gives a view; boolean/integer-array indexing gives a copy."""
        if isinstance(k, Const):
            return True
        if isinstance(k, ExtObj) and k.path == 'slice':
            return True
        if isinstance(k, Tup):
            return all(self.is_view_index(x) for x in k.items)
        if isinstance(k, Num):
            return k.kind == 's'
        return False

    def e_Tuple(self, e, S):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items, summ = self.iterate(self.ev(x.value, S), S, e)
                if items is None:
                    return Top(self.deps(summ, S) if summ is not None else EMPTY)
                out.extend(items)
            else:
                out.append(self.ev(x, S))
        return Tup(out)

    def e_List(self, e, S):
        if self.max_table and len(e.elts) > 8 and all(isinstance(x, ast.Constant) and isinstance(x.value, float) for x in e.elts):
            return self.new_list(S, [Const(x.value) for x in e.elts[-self.max_table:]])
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items, summ = self.iterate(self.ev(x.value, S), S, e)
                if items is None:
                    for o in out:
                        summ = o if summ is None else self.join(summ, o, S, e)
                    return self.new_list(S, None, summ)
                out.extend(items)
            else:
                out.append(self.ev(x, S))
        return self.new_list(S, out)

    def e_Set(self, e, S):
        return self.new_list(S, [self.ev(x, S) for x in e.elts])

    def e_Dict(self, e, S):
        it = {}
        summ = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, S)
                d, s = self.as_dict(m, S)
                if d is None:
                    summ = TOP
                else:
                    it.update(d)
                    if s is not None:
                        summ = s if summ is None else self.join(summ, s, S, e)
                continue
            kk = self.ev(k, S)
            vv = self.ev(v, S)
            if isinstance(kk, Const):
                it[kk.v] = vv
            else:
                summ = vv if summ is None else self.join(summ, vv, S, e)
        return self.new_dict(S, it, summ)

    def as_dict(self, m, S):
        if isinstance(m, Ref):
            h = self.hget(S, m)
            if h.kind == 'dict':
                return h.items, h.summ
        if isinstance(m, Choice):
            out, summ = {}, None
            n = 0
            for a in m.alts:
                if isinstance(a, Const) and a.v is None:
                    continue
                d, s = self.as_dict(a, S)
                if d is None:
                    return None, None
                n += 1
                for k, v in d.items():
                    out[k] = v if k not in out else self.join(out[k], v, S)
            return out, summ
        return None, None

    def e_BinOp(self, e, S):
        a = self.ev(e.left, S)
        b = self.ev(e.right, S)
        return self.binop(e.op, a, b, S, e)

    def e_UnaryOp(self, e, S):
        v = self.ev(e.operand, S)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, S)
            return self.bool_unknown(v, S=S) if t is None else Const(not t, self.deps(v, S))
        return self.unop(e.op, v, S, e)

    def unop(self, op, v, S, e):
        if isinstance(v, Const):
            try:
                if isinstance(op, ast.USub):
                    return Const(-v.v, v.deps)
                if isinstance(op, ast.UAdd):
                    return Const(+v.v, v.deps)
                if isinstance(v.v, bool):
                    return Const(not v.v, v.deps)
                return Const(~v.v, v.deps)
            except TypeError:
                return TOP
        if isinstance(v, Choice):
            r = None
            for a in v.alts:
                x = self.unop(op, a, S, e)
                r = x if r is None else self.join(r, x, S, e)
            return r
        if isinstance(v, Tup) and v.arr:
            return Tup([self.unop(op, x, S, e) for x in v.items], True)
        if isinstance(v, Num):
            if isinstance(op, ast.USub):
                return Num(self.D.neg(v.pay), EMPTY, v.kind)
            if isinstance(op, ast.UAdd):
                return Num(v.pay, EMPTY, v.kind)
            return Num(self.D.withdeps(self.D.plain, v.pay.deps), EMPTY, v.kind)
        if isinstance(v, Ref) and self.hget(S, v).kind == 'obj':
            h = self.hget(S, v)
            f, _ = h.cls.lookup('__neg__')
            if isinstance(f, FuncV):
                return self.call_func(f, [v], {}, S, e)
        return Top(self.deps(v, S))

    def binop(self, op, a, b, S, node):
        if isinstance(a, Const) and isinstance(b, Const):
            return self.const_binop(op, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            r = None
            for x in (a.alts if isinstance(a, Choice) else (a,)):
                if isinstance(x, Const) and x.v is None:
                    continue
                for y in (b.alts if isinstance(b, Choice) else (b,)):
                    if isinstance(y, Const) and y.v is None:
                        continue
                    try:
                        v = self.binop(op, x, y, S, node)
                    except Bottom:
                        continue
                    r = v if r is None else self.join(r, v, S, node)
            if r is None:
                raise Bottom('arithmetic on None')
            return r
        # lists
        la = isinstance(a, Ref) and self.hget(S, a).kind == 'list'
        lb = isinstance(b, Ref) and self.hget(S, b).kind == 'list'
        if la and lb and isinstance(op, ast.Add):
            x, y = self.hget(S, a), self.hget(S, b)
            if x.items is not None and y.items is not None:
                return self.new_list(S, x.items + y.items)
            x, y = self.blur_list(x, S, node), self.blur_list(y, S, node)
            s = x.summ if y.summ is None else (y.summ if x.summ is None else self.join(x.summ, y.summ, S, node))
            return self.new_list(S, None, s)
        if isinstance(op, ast.Mult) and (la or lb):
            l, n = (a, b) if la else (b, a)
            if isinstance(n, Const) and isinstance(n.v, int):
                h = self.hget(S, l)
                if h.items is not None and len(h.items) * max(n.v, 0) <= 256:
                    return self.new_list(S, h.items * n.v)
            h = self.blur_list(self.hget(S, l), S, node)
            if isinstance(n, Num) and n.kind == 's' or isinstance(n, Top):
                return self.new_list(S, None, h.summ)
        if isinstance(a, Tup) and isinstance(b, Tup) and not a.arr and not b.arr and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and not a.arr and isinstance(op, ast.Mult) and isinstance(b, Const):
            if len(a.items) * b.v < 256:
                return Tup(a.items * b.v)
        if isinstance(op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            return TOP
        if isinstance(op, ast.Add) and (isinstance(a, Const) and isinstance(a.v, str) or isinstance(b, Const) and isinstance(b.v, str)):
            return Top(self.deps(a, S) | self.deps(b, S))
        # objects with operator methods
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if isinstance(x, Ref) and self.hget(S, x).kind == 'obj':
                nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow'}.get(type(op))
                if nm:
                    f, _ = self.hget(S, x).cls.lookup(pre + nm + '__')
                    if isinstance(f, FuncV):
                        return self.call_func(f, [x, y], {}, S, node)
                return Top(self.deps(a, S) | self.deps(b, S))
        # fixed arrays
        if isinstance(a, Tup) and a.arr or isinstance(b, Tup) and b.arr:
            ia = a.items if isinstance(a, Tup) else None
            ib = b.items if isinstance(b, Tup) else None
            if isinstance(op, ast.MatMult):
                pass
            elif ia is not None and ib is not None:
                if len(ia) == len(ib):
                    return Tup([self.binop(op, x, y, S, node) for x, y in zip(ia, ib)], True)
            elif ia is not None and (self.is_numlike(b) or isinstance(b, Top)):
                return Tup([self.binop(op, x, b, S, node) for x in ia], True)
            elif ib is not None and (self.is_numlike(a) or isinstance(a, Top)):
                return Tup([self.binop(op, a, y, S, node) for y in ib], True)
        if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
            raise Bottom('arithmetic on None')
        if isinstance(a, Top) and not isinstance(b, Num) or isinstance(b, Top) and not isinstance(a, Num):
            return Top(self.deps(a, S) | self.deps(b, S), EMPTY, self.inv([a, b], {}, S))
        if isinstance(a, (ExtObj, ExtMeth)) or isinstance(b, (ExtObj, ExtMeth)):
            return Top(self.deps(a, S) | self.deps(b, S), EMPTY, self.inv([a, b], {}, S))
        pa, pb = self.pay(a, S), self.pay(b, S)
        w = self.where(node)
        D = self.D
        if isinstance(op, ast.Add):
            p = D.add(pa, pb, w)
        elif isinstance(op, ast.Sub):
            p = D.add(pa, pb, w, sub=True)
        elif isinstance(op, ast.Mult):
            p = D.mul(pa, pb, w)
        elif isinstance(op, ast.MatMult):
            p = D.mul(pa, pb, w)
            p = G(p.u, p.p, p.w, None, p.deps, p.cx)
        elif isinstance(op, ast.Div):
            p = D.mul(pa, pb, w, div=True)
        elif isinstance(op, ast.FloorDiv):
            p = D.mul(pa, pb, w, div=True)
            p = G(p.u, p.p, p.w, None, p.deps, p.cx)
        elif isinstance(op, ast.Pow):
            p = D.pow(pa, pb, w)
        elif isinstance(op, ast.Mod):
            q = D.top_of([pa, pb])
            p = G(pa.u, q.p, q.w, None, q.deps)
        else:
            p = D.withdeps(D.plain, pa.deps | pb.deps)
        return Num(p, EMPTY, self.kind_of(a, b))

    def kind_of(self, *vs):
        ks = set()
        for v in vs:
            if isinstance(v, Num):
                ks.add(v.kind)
            elif isinstance(v, Const):
                ks.add('s')
            elif isinstance(v, (Tup, Ref)):
                ks.add('a')
            else:
                ks.add('?')
        if 'a' in ks:
            return 'a'
        if '?' in ks:
            return '?'
        return 's'

    def const_binop(self, op, a, b):
        x, y = a.v, b.v
        d = a.deps | b.deps
        try:
            if isinstance(op, ast.Add):
                r = x + y
            elif isinstance(op, ast.Sub):
                r = x - y
            elif isinstance(op, ast.Mult):
                if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
                    return TOP
                r = x * y
            elif isinstance(op, ast.Div):
                r = x / y
            elif isinstance(op, ast.FloorDiv):
                r = x // y
            elif isinstance(op, ast.Mod):
                r = x % y
            elif isinstance(op, ast.Pow):
                if poly.ML and isinstance(y, float) and y != int(y) and isinstance(x, (int, float)) and x > 0:
                    return Num(self.D.pow(self.D.const(x), self.D.const(y), ''), EMPTY, 's')
                if isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(y) < 400:
                    r = x ** y
                else:
                    return TOP
            elif isinstance(op, ast.BitAnd):
                r = x & y
            elif isinstance(op, ast.BitOr):
                r = x | y
            elif isinstance(op, ast.BitXor):
                r = x ^ y
            else:
                return TOP
        except ZeroDivisionError:
            return Const(float('nan'))
        except OverflowError:
            return Const(float('inf'))
        except TypeError:
            if x is None or y is None:
                raise Bottom('arithmetic on None')
            return TOP
        except Exception:
            return TOP
        return Const(r, d)

    def e_BoolOp(self, e, S):
        isand = isinstance(e.op, ast.And)
        acc = None
        unknown = False
        for i, x in enumerate(e.values):
            try:
                v = self.ev(x, S)
            except Bottom:
                if not unknown:
                    raise
                return acc
            t = self.truth(v, S)
            if t is None:
                unknown = True
                acc = v if acc is None else self._boolmix(acc, v, S, e)
                continue
            decisive = (t is False) if isand else (t is True)
            if decisive:
                if not unknown:
                    return v
                if isinstance(v, Const) and isinstance(v.v, bool):
                    return v
                return self._boolmix(acc, v, S, e)
            if i == len(e.values) - 1:
                return v if not unknown else self._boolmix(acc, v, S, e)
        return acc if acc is not None else TOP

    def _boolmix(self, a, b, S, e):
        if a is None:
            return b
        if self.is_numlike(a) and self.is_numlike(b):
            return self.bool_unknown(a, b, S=S)
        return self.join(a, b, S, e)

    def e_IfExp(self, e, S):
        c = self.ev(e.test, S)
        t = self.truth(c, S)
        if t is True:
            return self.ev(e.body, S)
        if t is False:
            return self.ev(e.orelse, S)
        self.cond_deps |= self.deps(c, S)
        S2 = S.copy()
        a = b = None
        try:
            if self.refine(e.test, S, True) is not False:
                a = self.ev(e.body, S)
        except Bottom:
            a = None
        try:
            if self.refine(e.test, S2, False) is not False:
                b = self.ev(e.orelse, S2)
        except Bottom:
            b = None
        # merge heaps (env unchanged apart from refinement)
        S.env.update({k: v for k, v in S2.env.items() if k in S.env and S.env[k] is not v and False})
        for k, v in S2.heap.items():
            if k not in S.heap:
                S.heap[k] = v
            elif S.heap[k] is not v:
                S.heap[k] = self.join_hobj(S.heap[k], v, S, e)
        for k, v in S2.env.items():
            if k in S.env and S.env[k] is not v:
                S.env[k] = self.join(S.env[k], v, S, e)
        if a is None and b is None:
            raise Bottom('ifexp')
        if a is None:
            return b
        if b is None:
            return a
        if self.is_eqmask(c):
            old, self.soft = self.soft, True
            try:
                return self.join(a, b, S, e)
            finally:
                self.soft = old
        if self.strict_cond(c, S):
            olds, self.D.wstrict = self.D.wstrict, True
            try:
                return self.join(a, b, S, e)
            finally:
                self.D.wstrict = olds
        return self.join(a, b, S, e)

    def e_NamedExpr(self, e, S):
        v = self.ev(e.value, S)
        self.assign(e.target, v, S)
        return v

    def e_Compare(self, e, S):
        l = self.ev(e.left, S)
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, S)
            v = self.compare(op, l, r, S, e)
            if len(e.ops) == 1:
                return v
            t = self.truth(v, S)
            if t is False and len(e.ops) > 1:
                return FALSE
            if res is None:
                res = v
            else:
                tr = self.truth(res, S)
                if tr is True:
                    res = v
                elif t is True:
                    pass
                else:
                    res = self.bool_unknown(res, v, S=S)
            l = r
        return res

    def compare(self, op, a, b, S, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.is_same(a, b, S)
            if t is None:
                return self.bool_unknown(a, b, S=S)
            return Const(t if isinstance(op, ast.Is) else not t)
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(b, a, S)
            if t is None:
                return self.bool_unknown(a, b, S=S)
            return Const(t if isinstance(op, ast.In) else not t)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                x, y = a.v, b.v
                r = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y,
                     ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
                return Const(r, a.deps | b.deps)
            except TypeError:
                raise Bottom('TypeError')
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.equal(a, b, S)
            if t is not None:
                return Const(t if isinstance(op, ast.Eq) else not t)
        if poly.SIGNS and isinstance(a, (Num, Const)) and isinstance(b, (Num, Const)) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            x, y = self.pay(a, S).sym, self.pay(b, S).sym
            if x is not None and y is not None:
                sg = poly.SIGNS.get(poly.sub(x, y).key())
                if sg is not None:
                    return Const(sg < 0 if isinstance(op, (ast.Lt, ast.LtE)) else sg > 0)
        if poly.ML:
            r = self.ml_compare(op, a, b, S, node)
            if r is not None:
                return r
        if self.D.track and isinstance(a, (Num, Const)) and isinstance(b, (Num, Const)):
            r = self.bool_unknown(a, b, S=S)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r.pay = G(r.pay.u, r.pay.p, r.pay.w, EQMASK if isinstance(op, ast.Eq) else None, r.pay.deps)
            elif not isinstance(op, (ast.In, ast.NotIn)):
                self.on_compare(a, b, S, node)
            return r
        return self.bool_unknown(a, b, S=S)

    def ml_compare(self, op, a, b, S, node):
        if self.no_decide:
            return None
        if isinstance(a, Tup) and a.arr or isinstance(b, Tup) and b.arr:
            n = len(a.items) if isinstance(a, Tup) else len(b.items)
            ia = a.items if isinstance(a, Tup) else (a,) * n
            ib = b.items if isinstance(b, Tup) else (b,) * n
            if len(ia) != len(ib):
                return None
            return Tup([self.compare(op, x, y, S, node) for x, y in zip(ia, ib)], True)
        if not (self.is_numlike(a, S) and self.is_numlike(b, S)):
            return None
        pa, pb = self.pay(a, S), self.pay(b, S)
        for x, y, sg in ((a, pb, 1), (b, pa, -1)):
            if isinstance(x, Const) and isinstance(x.v, float) and x.v in (float('inf'), float('-inf')):
                t = sg if x.v > 0 else -sg
                break
        else:
            if pa.sym is None or pb.sym is None:
                return None
            t = poly.mlval.decide(pa.sym, pb.sym, self.where(node))
        if t is None:
            return None
        r = {ast.Eq: t == 0, ast.NotEq: t != 0, ast.Lt: t < 0, ast.LtE: t <= 0, ast.Gt: t > 0, ast.GtE: t >= 0}[type(op)]
        return Const(r, pa.deps | pb.deps)

    def on_compare(self, a, b, S, node):
        """ordering two quantities of different grade / shifting differently decides a branch frame-dependently."""
        D = self.D
        pa, pb = self.pay(a, S), self.pay(b, S)
        w = self.where(node)
        for i, (x, y) in enumerate(zip(pa.u, pb.u)):
            c = D.c_add(x, y, w, 'comparison')
            if isinstance(c, Bad) and not isinstance(x, Bad) and not isinstance(y, Bad):
                self.bad_compare.setdefault(('u', i, w, self.frames[-1].qual()), c)
        for i, (x, y) in enumerate(zip(pa.w, pb.w)):
            if isinstance(x, poly.Poly) and isinstance(y, poly.Poly) and x != y:
                self.bad_compare.setdefault(('w', i, w, self.frames[-1].qual()),
                                            Bad('comparison of an absolute position with a translation-invariant quantity', w))

    def equal(self, a, b, S):
        """None if unknown."""
        if isinstance(a, Choice) or isinstance(b, Choice):
            ts = set()
            for x in (a.alts if isinstance(a, Choice) else (a,)):
                for y in (b.alts if isinstance(b, Choice) else (b,)):
                    ts.add(self.equal(x, y, S))
            return ts.pop() if len(ts) == 1 else None
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const):
                if isinstance(x.v, str) and isinstance(y, (Num, Ref, Tup, FuncV, ClassV)):
                    return False
                if x.v is None and isinstance(y, (Num, Ref, Tup, FuncV, ClassV)):
                    return False
        if isinstance(a, Tup) and isinstance(b, Tup) and not a.arr and not b.arr:
            if len(a.items) != len(b.items):
                return False
            ts = [self.equal(x, y, S) for x, y in zip(a.items, b.items)]
            if all(t is True for t in ts):
                return True
            if any(t is False for t in ts):
                return False
            return None
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.hget(S, a), self.hget(S, b)
            if x.kind == 'list' and y.kind == 'list' and x.items is not None and y.items is not None:
                return self.equal(Tup(x.items), Tup(y.items), S)
            if x.kind == 'dict' and y.kind == 'dict' and x.items is not None and y.items is not None and x.summ is None and y.summ is None:
                if a.id == b.id:
                    return True
                if set(x.items) != set(y.items):
                    return False
                return self.equal(Tup([x.items[k] for k in x.items]), Tup([y.items[k] for k in x.items]), S)
        if isinstance(a, (ExtV, ClassV)) and isinstance(b, (ExtV, ClassV)):
            return self.is_same(a, b, S)
        return None

    def is_same(self, a, b, S):
        if isinstance(a, Choice) or isinstance(b, Choice):
            ts = set()
            for x in (a.alts if isinstance(a, Choice) else (a,)):
                for y in (b.alts if isinstance(b, Choice) else (b,)):
                    ts.add(self.is_same(x, y, S))
            return ts.pop() if len(ts) == 1 else None
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return a.v == b.v if type(a.v) is type(b.v) else False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None:
                if isinstance(y, (Num, Ref, Tup, FuncV, ClassV, Bound, ExtV, ExtObj, ModV)):
                    return False
            if isinstance(x, Const) and isinstance(x.v, bool):
                if isinstance(y, (Ref, Tup, FuncV, ClassV, Bound)):
                    return False
        if isinstance(a, (ClassV, FuncV)) and isinstance(b, (ClassV, FuncV)):
            return a is b
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.path.startswith('builtins.') and b.path.startswith('builtins.'):
            return a.path == b.path
        return None

    def contains(self, c, x, S):
        if isinstance(c, Choice):
            ts = {self.contains(a, x, S) for a in c.alts if not (isinstance(a, Const) and a.v is None)}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(x, Choice):
            ts = {self.contains(c, a, S) for a in x.alts}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(c, Const) and isinstance(c.v, str) and isinstance(x, Const) and isinstance(x.v, str):
            return x.v in c.v
        items = None
        if isinstance(c, Ref):
            h = self.hget(S, c)
            if h.kind == 'dict':
                if isinstance(x, Const):
                    try:
                        if x.v in h.items:
                            return True
                    except TypeError:
                        return None
                    return None if h.summ is not None else False
                return None
            if h.kind == 'list':
                items = h.items
                if items is None:
                    return None
        elif isinstance(c, Tup):
            items = c.items
        if items is None:
            return None
        unknown = False
        for y in items:
            t = self.equal(x, y, S)
            if t is True:
                return True
            if t is None:
                unknown = True
        return None if unknown else False

    def e_JoinedStr(self, e, S):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
            else:
                v = self.ev(x.value, S)
                if isinstance(v, Const) and x.format_spec is None:
                    out.append(str(v.v))
                else:
                    return Top(self.deps(v, S))
        return Const(''.join(out))

    def e_Lambda(self, e, S):
        return self.make_func(e, S, closure=dict(S.env))

    def comp(self, gens, S, node, fn):
        """run comprehension generators; fn(S) yields element; returns (items or None, summ)."""
        def rec(i):
            if i == len(gens):
                return [fn(S)], None
            g = gens[i]
            it = self.ev(g.iter, S)
            items, summ = self.iterate(it, S, node)
            out = []
            if items is not None and len(items) <= 256:
                ok = True
                osum = None
                for v in items:
                    self.assign(g.target, v, S)
                    keep = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c, S), S)
                        if t is False:
                            keep = False
                            break
                        if t is None:
                            ok = False
                    if not keep:
                        continue
                    a, b = rec(i + 1)
                    if a is None:
                        ok = False
                    out.extend(a or ())
                    if b is not None:
                        osum = b if osum is None else self.join(osum, b, S, node)
                if ok:
                    return out, None
                for x in out:
                    osum = x if osum is None else self.join(osum, x, S, node)
                return None, osum
            if items is not None:
                for v in items:
                    summ = v if summ is None else self.join(summ, v, S, node)
            self.assign(g.target, summ if summ is not None else TOP, S)
            for c in g.ifs:
                self.ev(c, S)
            a, b = rec(i + 1)
            for x in a or ():
                b = x if b is None else self.join(b, x, S, node)
            return None, b
        saved = dict(S.env)
        r = rec(0)
        S.env.clear()
        S.env.update(saved)
        return r

    def e_ListComp(self, e, S):
        items, summ = self.comp(e.generators, S, e, lambda s: self.ev(e.elt, s))
        return self.new_list(S, items, summ)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, S):
        items, summ = self.comp(e.generators, S, e, lambda s: Tup([self.ev(e.key, s), self.ev(e.value, s)]))
        d = {}
        ss = None
        for t in items or ():
            if isinstance(t.items[0], Const):
                d[t.items[0].v] = t.items[1]
            else:
                ss = t.items[1] if ss is None else self.join(ss, t.items[1], S, e)
        if items is None:
            ss = summ.items[1] if isinstance(summ, Tup) else TOP
        return self.new_dict(S, d, ss)

    def e_Starred(self, e, S):
        return self.ev(e.value, S)

    def e_Await(self, e, S):
        return TOP

    def e_Yield(self, e, S):
        if e.value is not None:
            v = self.ev(e.value, S)
            self.frames[-1].rets.append((S.copy(), self.new_list(S, None, v), e))
        return TOP

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, S, node):
        """-> (items list or None, summary value or None)"""
        if isinstance(v, Tup):
            return list(v.items), None
        if isinstance(v, Ref):
            h = self.hget(S, v)
            if h.kind == 'list':
                if h.items is not None:
                    return list(h.items), None
                return None, h.summ if h.summ is not None else TOP
            if h.kind == 'dict':
                if h.summ is None:
                    return [Const(k) for k in h.items], None
                return None, TOP
            if h.kind == 'obj':
                return None, Top(self.deps(v, S))
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [Const(c) for c in v.v], None
            if v.v is None:
                raise Bottom('iterate None')
            return None, Num(self.pay(v, S))
        if isinstance(v, Num):
            p = v.pay
            if p.sym is not None:
                p = G(p.u, p.p, p.w, None, p.deps, p.cx)
            return None, Num(p, v.own, '?')
        if isinstance(v, Choice):
            summ = None
            for a in v.alts:
                if isinstance(a, Const) and a.v is None:
                    continue
                i, s = self.iterate(a, S, node)
                for x in i or ():
                    summ = x if summ is None else self.join(summ, x, S, node)
                if s is not None:
                    summ = s if summ is None else self.join(summ, s, S, node)
            return None, summ
        if isinstance(v, Top):
            return None, Top(v.deps, v.own, v.g)
        return None, Top(self.deps(v, S), EMPTY, self.inv([v], {}, S))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, S):
        fr = self.frames[-1]
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in S.env:
            if e.args:
                c = self.ev(e.args[0], S)
                s = self.ev(e.args[1], S) if len(e.args) > 1 else fr.self_
                return SuperV(c, s)
            return SuperV(fr.cls, fr.self_)
        f = self.ev(e.func, S)
        args = []
        star_unknown = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                items, summ = self.iterate(self.ev(a.value, S), S, e)
                if items is None:
                    star_unknown = summ if summ is not None else TOP
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, S))
        kw = {}
        kw_unknown = None
        for k in e.keywords:
            v = self.ev(k.value, S)
            if k.arg is None:
                d, s = self.as_dict(v, S)
                if d is None:
                    kw_unknown = Top(self.deps(v, S)) if not (isinstance(v, Const) and v.v is None) else None
                else:
                    for kk, vv in d.items():
                        if kk in kw:
                            self.event('dupkw', kk, None, e)
                            raise Bottom('duplicate keyword')
                        kw[kk] = vv
                    if s is not None:
                        kw_unknown = s
            else:
                if k.arg in kw:
                    self.event('dupkw', k.arg, None, e)
                    raise Bottom('duplicate keyword')
                kw[k.arg] = v
        self.frames[-1].node = e
        return self.call(f, args, kw, S, e, star_unknown, kw_unknown)

    def call(self, f, args, kw, S, node, su=None, ku=None):
        if isinstance(f, Choice):
            r = None
            base = None
            outs = None
            S0 = S.copy()
            first = True
            for x in f.alts:
                if isinstance(x, Const):
                    continue
                Sx = S0.copy()
                Sx.env = S.env
                try:
                    v = self.call(x, args, kw, Sx, node, su, ku)
                except Bottom:
                    continue
                if outs is None:
                    outs = Sx
                    r = v
                else:
                    outs = self.join_state(outs, Sx, node)
                    r = self.join(r, v, outs, node)
            if outs is None:
                raise Bottom('call of nothing')
            S.heap = outs.heap
            return r
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, S, node, su, ku)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kw, S, node, su, ku)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, S, node, su, ku)
        if isinstance(f, Native):
            return f.fn(self, args, kw, S, node)
        if isinstance(f, ExtV):
            for h in self.ext_hooks:
                h(self, f.path, args, kw, S, node)
            return self.np.call_ext(f.path, args, kw, S, node, su, ku)
        if isinstance(f, ExtMeth):
            return self.np.call_meth(f.recv, f.name, args, kw, S, node, su, ku)
        if isinstance(f, Ref):
            h = self.hget(S, f)
            if h.kind == 'obj':
                g, _ = h.cls.lookup('__call__')
                if isinstance(g, FuncV):
                    return self.call_func(g, [f] + list(args), kw, S, node, su, ku)
        d = self.deps(f, S)
        for x in list(args) + list(kw.values()):
            d |= self.deps(x, S)
        if isinstance(f, ExtObj):
            return self.np.call_obj(f, args, kw, S, node)
        if isinstance(f, Const):
            raise Bottom('call of constant')
        return Top(d, EMPTY, self.inv([f] + list(args), kw, S))

    def instantiate(self, c, args, kw, S, node, su=None, ku=None):
        q = c.qual
        if q in self.intrinsics:
            return self.intrinsics[q](self, c, args, kw, S, node)
        o = self.alloc(S, HObj('obj', {}, cls=c))
        f, k = c.lookup('__init__')
        if isinstance(f, FuncV):
            self.call_func(f, [o] + list(args), kw, S, node, su, ku)
        elif c.has_ext():
            pass
        return o

    def bind_args(self, f, args, kw, S, node, su, ku):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        env = {}
        n = len(pos)
        args = list(args)
        extra = args[n:]
        for nm, v in zip(pos, args):
            env[nm] = v
        kwrest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in env:
                self.event('call_dup', (f.qual, k), None, node)
                raise Bottom('multiple values for argument')
            if k in pos or k in kwonly:
                env[k] = v
            else:
                kwrest[k] = v
        if extra and a.vararg is None:
            self.event('call_toomany', f.qual, '%d positional arguments given, at most %d accepted' % (len(args), n), node)
            raise Bottom('too many arguments')
        if kwrest and a.kwarg is None:
            self.event('call_unexpected', (f.qual, tuple(sorted(map(str, kwrest)))), None, node)
            raise Bottom('unexpected keyword')
        nd = len(f.defaults)
        for i, nm in enumerate(pos):
            if nm not in env:
                if su is not None:
                    env[nm] = su if i - (n - nd) < 0 else self.join(su, f.defaults[i - (n - nd)], S, node)
                    continue
                j = i - (n - nd)
                if j >= 0:
                    env[nm] = f.defaults[j]
                    if ku is not None:
                        env[nm] = self.join(env[nm], ku, S, node)
                elif ku is not None:
                    env[nm] = ku
                else:
                    self.event('call_missing', (f.qual, nm), None, node)
                    raise Bottom('missing argument')
        for nm in kwonly:
            if nm not in env:
                if nm in f.kwdefaults:
                    env[nm] = f.kwdefaults[nm]
                elif ku is not None:
                    env[nm] = ku
                else:
                    raise Bottom('missing argument')
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra) if su is None else self.new_list(S, None, su)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(S, kwrest, ku)
        return env

    def call_func(self, f, args, kw, S, node, su=None, ku=None):
        q = f.mod.name + '.' + f.qual
        if q in self.intrinsics:
            return self.intrinsics[q](self, f, args, kw, S, node)
        for h in self.call_hooks:
            r = h(self, f, args, kw, S, node)
            if r is not None:
                return r
        self.funcs_seen.add(q)
        if len(self.frames) > self.MAXDEPTH or sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node) >= 3:
            d = EMPTY
            for x in list(args) + list(kw.values()):
                d |= self.deps(x, S)
            self.unknown_calls[q] = 'recursion/depth'
            return Top(d)
        env = self.bind_args(f, args, kw, S, node, su, ku)
        self_ = args[0] if (f.cls is not None and f.kind != 'static' and args) else None
        fr = Frame(f, f.mod, f.cls, self_)
        if f.closure is not None and f.cls is None:
            pass
        self.frames.append(fr)
        saved_env = S.env
        saved_w = self.widening
        self.widening = 0
        try:
            S.env = env
            if isinstance(f.node, ast.Lambda):
                fr.node = f.node
                v = self.ev(f.node.body, S)
                S.env = saved_env
                return v
            cur = State(env, S.heap)
            R = self.exec_block(f.node.body, cur)
            rets = fr.rets
            if R is not None:
                rets = rets + [(R, NONE, None)]
            if not rets:
                raise Bottom('no return from ' + f.qual)
            S0, v, n0 = rets[0]
            S0.env = {}
            old_soft = self.soft
            olds = self.D.wstrict
            if fr.special:
                self.soft = True
            elif not fr.lax and self.pos_labels:
                self.D.wstrict = True
            for S1, v1, n1 in rets[1:]:
                S1.env = {}
                fr.node = n1 or fr.node
                S0 = self.join_state(S0, S1, n1)
                v = self.join(v, v1, S0, n1)
            self.soft = old_soft
            self.D.wstrict = olds
            S.heap = S0.heap
            return v
        finally:
            self.widening = saved_w
            self.frames.pop()
            S.env = saved_env
