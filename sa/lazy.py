"""Lazily kept results: which attributes does a class keep from earlier calls, what do they depend on, and what drops them?

A lazy site is an `if` that tests the absence of an attribute (hasattr / is None / a flag) and stores attributes in its body.  Its dependences
are the parameters of the method and the attributes of the object that flow into what is stored; parameters compared with the object's
state in the test are its keys.
"""
import ast
import re
from .effects import Repo, Cls, Fn, dotted

RESET = re.compile(r'^(delete_\w*caches?|set_dynamic|(reset|clear|drop|flush|invalidate)_?\w*cache\w*)$')


def literals(test, pos=True):
    """literals (atom, polarity) that hold when the test has the given outcome; only those that are certain."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not pos)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == pos:
            return set().union(*(literals(v, pos) for v in test.values))
        return {(ast.unparse(test), pos, test)}
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
        op, l, r = test.ops[0], test.left, test.comparators[0].value
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            same = isinstance(op, (ast.Is, ast.Eq)) == pos
            if r is None:
                return {('%s is None' % ast.unparse(l), same, l)}
            if isinstance(r, bool):
                return {(ast.unparse(l), same == r, l)}
            return {('%s == %r' % (ast.unparse(l), r), same, l)}
    return {(ast.unparse(test), pos, test)}


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def paths(f):
    """node id -> literals that hold where the node is evaluated."""
    out = {}

    def expr(e, lit):
        out[id(e)] = lit
        if isinstance(e, ast.IfExp):
            expr(e.test, lit)
            expr(e.body, lit | literals(e.test, True))
            expr(e.orelse, lit | literals(e.test, False))
            return
        for k in ast.iter_child_nodes(e):
            expr(k, lit)

    def block(body, lit):
        for q in body:
            out[id(q)] = lit
            if isinstance(q, ast.If):
                expr(q.test, lit)
                a, b = literals(q.test, True), literals(q.test, False)
                block(q.body, lit | a)
                block(q.orelse, lit | b)
                if leaves(q.body) and not leaves(q.orelse):
                    lit = lit | b
                elif leaves(q.orelse) and not leaves(q.body):
                    lit = lit | a
            elif isinstance(q, (ast.For, ast.While, ast.With, ast.Try)):
                for n in ast.iter_child_nodes(q):
                    if isinstance(n, ast.ExceptHandler):
                        block(n.body, lit)
                    elif not isinstance(n, ast.stmt):
                        expr(n, lit)
                for k in ('body', 'orelse', 'finalbody'):
                    block(getattr(q, k, None) or (), lit)
            else:
                expr(q, lit)
    block(f.node.body, frozenset())
    return out


class Site:
    def __init__(self, fn, node):
        self.fn = fn
        self.node = node
        self.guards = set()     # attributes whose absence is tested
        self.stored = set()
        self.params = set()     # parameters the stored values depend on
        self.attrs = set()      # attributes of the object they depend on
        self.keys = set()

    @property
    def unkeyed(self):
        return self.params - self.keys


def self_attr(e, s):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s else None


def guards(test, s, pos=True):
    """attributes whose absence makes the test succeed (pos) or fail."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return guards(test.operand, s, not pos)
    if isinstance(test, ast.BoolOp):
        out = set()
        for v in test.values:
            out |= guards(v, s, pos)
        return out
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'hasattr' and len(test.args) == 2 and not pos:
        if isinstance(test.args[0], ast.Name) and test.args[0].id == s and isinstance(test.args[1], ast.Constant):
            return {test.args[1].value}
        return set()
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, l, r = test.ops[0], test.left, test.comparators[0]
        if isinstance(r, ast.Constant) and r.value is None:
            want = isinstance(op, (ast.Is, ast.Eq)) if pos else isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'getattr' and len(l.args) == 3 and isinstance(l.args[1], ast.Constant):
                return {l.args[1].value} if want else set()
            a = self_attr(l, s)
            return {a} if a and want else set()
        if isinstance(l, ast.Constant) and isinstance(l.value, str) and isinstance(op, ast.NotIn if pos else ast.In) and ast.unparse(r) in (s + '.__dict__', 'vars(%s)' % s):
            return {l.value}
    return set()


class Flow:
    """parameters and attributes that flow into each local variable of a function (flow-insensitive)."""

    def __init__(self, fn):
        self.fn = fn
        n = fn.node
        self.s = fn.params[0] if fn.method and fn.params else None
        self.dep = {p: ({p}, set()) for p in (fn.params[1:] if self.s else fn.params) + fn.kwonly + [x for x in (fn.vararg, fn.kwarg) if x]}
        for _ in range(4):
            before = {k: (set(a), set(b)) for k, (a, b) in self.dep.items()}
            for q in ast.walk(n):
                if isinstance(q, ast.Assign):
                    for t in q.targets:
                        self.bind(t, q.value)
                elif isinstance(q, (ast.AugAssign, ast.AnnAssign)) and q.value is not None:
                    self.bind(q.target, q.value)
                elif isinstance(q, (ast.For, ast.comprehension)):
                    self.bind(q.target, q.iter)
                elif isinstance(q, ast.withitem) and q.optional_vars is not None:
                    self.bind(q.optional_vars, q.context_expr)
                elif isinstance(q, ast.NamedExpr):
                    self.bind(q.target, q.value)
                elif isinstance(q, ast.FunctionDef) and q is not n:
                    for x in q.body:
                        self.add(q.name, self.of(x))
                elif isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and isinstance(q.func.value, ast.Name) and q.func.attr in ('append', 'extend', 'insert', 'update', 'add'):
                    for x in list(q.args) + [k.value for k in q.keywords]:
                        self.add(q.func.value.id, self.of(x))
            if before == self.dep:
                break

    def add(self, name, d):
        if name == self.s:
            return
        a, b = self.dep.setdefault(name, (set(), set()))
        a |= d[0]
        b |= d[1]

    def bind(self, t, v):
        d = self.of(v)
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                self.add(x.id, d)

    def of(self, e):
        """(parameters, attributes) an expression or statement reads."""
        ps, at = set(), set()
        for q in ast.walk(e):
            if isinstance(q, ast.Name) and q.id != self.s and q.id in self.dep:
                a, b = self.dep[q.id]
                ps |= a
                at |= b
            a = self_attr(q, self.s) if self.s else None
            if a:
                at.add(a)
        return ps, at


class Lazy:
    def __init__(self, repo):
        self.repo = repo
        self.cache = {}
        self.flows = {}
        self.cond = {}

    def flow(self, f):
        if f not in self.flows:
            self.flows[f] = Flow(f)
        return self.flows[f]

    def sites(self, f):
        """lazy sites of one method."""
        if f in self.cache:
            return self.cache[f]
        out = self.cache[f] = []
        if not f.method or not f.params or f.name == '__init__' or RESET.match(f.name):
            return out
        s = f.params[0]
        fl = None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.If):
                continue
            for body, pos in ((n.body, True), (n.orelse, False)):
                g = guards(n.test, s, pos)
                if not g or not body:
                    continue
                fl = fl or self.flow(f)
                site = Site(f, n)
                for q in body:
                    for a in ast.walk(q):
                        if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
                            st = {self_attr(x, s) for t in (a.targets if isinstance(a, ast.Assign) else [a.target]) for x in ast.walk(t) if self_attr(x, s) and isinstance(x.ctx, ast.Store)}
                            if st:
                                site.stored |= st
                                p, at = fl.of(a.value)
                                site.params |= p
                                site.attrs |= at
                if not site.stored & g:
                    continue
                site.guards = g & (site.stored | self.assigned(f.cls))
                if len(g) != len(site.guards) and isinstance(n.test, ast.BoolOp) or not site.guards:
                    if not site.guards:
                        continue
                for c in ast.walk(n.test):
                    if isinstance(c, ast.Compare) and not (len(c.comparators) == 1 and isinstance(c.comparators[0], ast.Constant)):
                        p, at = fl.of(c)
                        if at:
                            site.keys |= p
                out.append(site)
        return out

    def assigned(self, c):
        got = getattr(c, '_assigned', None)
        if got is None:
            got = c._assigned = set()
            for x in self.repo.mro(c):
                for f in x.methods.values():
                    if f.method and f.params:
                        got |= {q.attr for q in ast.walk(f.node) if self_attr(q, f.params[0]) and isinstance(q.ctx, ast.Store)}
        return got

    def class_sites(self, c):
        seen, out = set(), []
        for x in self.repo.mro(c):
            for n, f in x.methods.items():
                if n not in seen:
                    seen.add(n)
                    out += self.sites(f)
        return out

    def dropped(self, c, f, seen=()):
        """(attributes a method removes or rebinds, True if some removal could not be resolved)."""
        out, open_ = set(), False
        if f in seen:
            return out, open_
        s = f.params[0]
        consts = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                it = n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'sorted', 'set') and it.args:
                    it = it.args[0]
                if isinstance(it, ast.Name):
                    for a in ast.walk(f.node):
                        if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in a.targets):
                            it = a.value
                            break
                if isinstance(it, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(q, ast.Constant) for q in it.elts):
                    consts.setdefault(n.target.id, set()).update(q.value for q in it.elts)

        def named(e):
            if isinstance(e, ast.Constant):
                return {e.value}
            if isinstance(e, ast.Name) and e.id in consts:
                return consts[e.id]
            return None
        for n in ast.walk(f.node):
            a = self_attr(n, s)
            if a and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(a)
            if isinstance(n, ast.Call):
                nm = None
                if isinstance(n.func, ast.Name) and n.func.id in ('delattr', 'setattr') and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == s:
                    nm = named(n.args[1])
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and ast.unparse(n.func.value) in (s + '.__dict__', 'vars(%s)' % s) and n.args:
                    nm = named(n.args[0])
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ('clear', 'update') and ast.unparse(n.func.value) in (s + '.__dict__', 'vars(%s)' % s):
                    open_ = True
                    continue
                else:
                    m = self_attr(n.func, s)
                    g = self.repo.method(c, m) if m else None
                    if g is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value.func) == 'super':
                        for b in f.cls.bases:
                            g = g or self.repo.method(b, n.func.attr)
                    if g is None and isinstance(n.func, ast.Attribute) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == s:
                        t = self.repo.resolve(f.mod, n.func)
                        g = t if isinstance(t, Fn) and t.method else None
                    if g is not None and g.method:
                        o2, p2 = self.dropped(c, g, seen + (f,))
                        out |= o2
                        open_ = open_ or p2
                    elif any(isinstance(x, ast.Name) and x.id == s for x in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'isinstance', 'super', 'type')):
                        open_ = True      # the object itself is handed to someone else
                    continue
                if nm is None:
                    open_ = True
                else:
                    out |= nm
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and ast.unparse(t.value) in (s + '.__dict__', 'vars(%s)' % s):
                        nm = named(t.slice)
                        if nm is None:
                            open_ = True
                        else:
                            out |= nm
        return out, open_

    def conds(self, f):
        if f not in self.cond:
            self.cond[f] = paths(f)
        return self.cond[f]

    def reads(self, c, e, s, seen=()):
        """attributes of the object an expression reads, through methods and properties of its class."""
        out = set()
        for n in ast.walk(e):
            a = self_attr(n, s)
            if a is None and isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                a = n.value if any(isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('hasattr', 'getattr') and n in q.args for q in ast.walk(e)) else None
            if a and a not in seen:
                g = self.repo.method(c, a)
                out |= {a} if g is None or not g.method or not g.params else self.reads(c, g.node, g.params[0], seen + (a,))
        return out

    def conditions(self, c, f, attrs):
        """conditions on other attributes of the object under which alone a method drops the attributes; None if it drops them whenever they are kept (or this is not known)."""
        s = f.params[0]
        cond = self.conds(f)
        found = []
        for n in ast.walk(f.node):
            hit = self_attr(n, s) in attrs and isinstance(n.ctx, (ast.Store, ast.Del))
            if isinstance(n, ast.Call):
                m = self_attr(n.func, s)
                g = self.repo.method(c, m) if m else None
                if g is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value.func) == 'super':
                    for b in f.cls.bases:
                        g = g or self.repo.method(b, n.func.attr)
                if g is not None and g is not f and g.method and g.params and self.dropped(c, g, (f,))[0] & attrs:
                    sub = self.conditions(c, g, attrs)
                    if sub is not None:
                        continue
                    hit = True
                elif isinstance(n.func, ast.Name) and n.func.id in ('delattr', 'setattr') or isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'clear', 'update') and ast.unparse(n.func.value) in (s + '.__dict__', 'vars(%s)' % s):
                    return None
            if hit:
                extra = set()
                for t, pos, e in cond.get(id(n), ()):
                    r = self.reads(c, e, s)
                    if not r or r & attrs or any(isinstance(q, ast.Name) and q.id != s and q.id in f.params + f.kwonly for q in ast.walk(e)):
                        continue
                    if all(isinstance(q.ctx, ast.Load) and self_attr(q, s) is None for q in ast.walk(e) if isinstance(q, ast.Name) and q.id != s):
                        if any(isinstance(q, ast.Name) and q.id not in (s, 'hasattr', 'getattr', 'len', 'isinstance', 'bool') for q in ast.walk(e)):
                            continue
                    extra.add((t, pos, frozenset(r)))
                if not extra:
                    return None
                found.append(extra)
        if not found:
            return None
        both = {(t, p) for x in found for t, p, _ in x}
        if any((t, not p) in both for t, p in both):
            return None
        return set.union(*found) if len(found) > 1 else found[0]

    def known_at(self, c, site, depth=3):
        """literals on some path to a lazy site, in its method and its callers within the class; and the attributes they name."""
        out, todo, seen = set(), [(site.fn, [site.node] + [n for n in ast.walk(site.node)])], set()
        while todo:
            f, nodes = todo.pop()
            s = f.params[0]
            cond = self.conds(f)
            for n in nodes:
                for t, pos, e in cond.get(id(n), ()):
                    out.add((t.replace(s + '.', 'self.'), pos))
            if f in seen or len(seen) > 12:
                continue
            seen.add(f)
            for x in self.repo.mro(c) + self.repo.subs.get(c, []):
                for g in x.methods.values():
                    if g.method and g.params and g not in seen:
                        calls = [n for n in ast.walk(g.node) if self_attr(n, g.params[0]) == f.name]
                        if calls:
                            todo.append((g, calls))
        todo, done = sorted(site.attrs), set()
        while todo:                     # conditions under which the methods and properties it reads use their state
            a = todo.pop()
            g = self.repo.method(c, a)
            if a in done or g is None or not g.method or not g.params or g is site.fn:
                continue
            done.add(a)
            s = g.params[0]
            for lits in set(self.conds(g).values()):
                out |= {(t.replace(s + '.', 'self.'), pos) for t, pos, e in lits}
            todo += sorted({self_attr(n, s) for n in ast.walk(g.node) if self_attr(n, s)})
        return out

    def incomplete(self, c, f, site):
        """why a method that drops a kept value leaves it in a state of the object in which it is kept."""
        ext = self.conditions(c, f, site.guards | site.stored)
        if not ext:
            return None
        known = self.known_at(c, site)
        s = f.params[0]
        for t, pos, r in sorted(ext, key=lambda q: q[:2]):
            if (t.replace(s + '.', 'self.'), pos) not in known and r <= self.assigned(c):
                return '%s%s' % ('' if pos else 'not ', t)
        return None

    def resets(self, c):
        names = {n for x in self.repo.mro(c) for n in x.methods if RESET.match(n)}
        return {n: self.repo.method(c, n) for n in sorted(names)}
