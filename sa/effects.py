"""Whole-repository alias and effect analysis: which caller-supplied containers/arrays does a function modify?

Flow-sensitive, interprocedural (summaries to a fixed point).  An abstract value is the set of caller-visible objects it
may be (roots) plus the abstract value of its elements.  A root is (origin, depth): origin = parameter name or 'self.attr',
depth = number of element accesses (0: the object itself, 1: an element of it, ...).
Only in-place operations on containers and arrays are effects; binding attributes of an object is not.
"""
import ast
import os
import re

MAXD = 4
MUT_ANY = {'append', 'extend', 'setdefault', 'popitem', 'sort', 'reverse', 'fill', 'itemset', 'clear', 'pop', 'insert', 'discard', 'remove', 'update', 'resize', 'add'}
AMBIGUOUS = {'update', 'add', 'remove', 'insert', 'clear', 'resize', 'sort', 'pop', 'fill'}
ALIAS_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes'}
SHALLOW_METHODS = {'copy'}
ALIAS_FUNCS = {'asarray', 'ravel', 'reshape', 'squeeze', 'atleast_1d', 'atleast_2d', 'transpose', 'swapaxes', 'asanyarray', 'moveaxis', 'expand_dims', 'flip', 'rot90', 'flipud', 'fliplr', 'broadcast_to'}
SHALLOW = {'list', 'dict', 'tuple', 'set', 'sorted', 'reversed', 'OrderedDict', 'frozenset'}
ARRAY_NAMES = set("""x y theta_x theta_y beta_x beta_y alpha_x alpha_y ra dec ra_array dec_array x_grid y_grid r R image img data kernel psf
 image_data exposure_map noise_map mask likelihood_mask x_pos y_pos ra_image dec_image x_coords y_coords xx yy ra_grid dec_grid C_D model wls_model
 ra_pos dec_pos ra_source dec_source flux point_amp source_amp amp magnification mag surface_brightness residuals args array a_array kernel_point_source""".split())
ARRAY_KEYS = {'ra_image', 'dec_image', 'point_amp', 'source_amp', 'amp', 'image_data', 'exposure_time', 'background_rms', 'noise_map', 'kernel_point_source', 'psf_error_map',
              'init_samples', 'coeffs', 'sigma', 'psf_variance_map', 'kernel_point_source_init', 'transform_pix2angle', 'image', 'samples', 'x', 'y'}


# functions that return their argument itself only for an argument on which the caller's later write changes nothing:
# kernel_make_odd for an odd-sized kernel (callers test the parity first), re_size for factor 1 (the write is then a
# multiplication by 1)
CONDITIONAL_ALIAS = {'lenstronomy.Util.kernel_util.kernel_make_odd', 'lenstronomy.Util.image_util.re_size'}


class V:
    __slots__ = ('roots', 'el', 'cls', 'ctor', 'items', 'arr')

    def __init__(self, roots=frozenset(), el=None, cls=None, ctor=None, items=None, arr=False):
        self.roots = frozenset(roots)
        self.el = el
        self.cls = cls
        self.ctor = ctor        # parameter name -> V for an object built here
        self.items = items      # tuple elements
        self.arr = arr          # known to be an array (evidence in the source)

    def elem(self):
        out = []
        r = frozenset((o, d + 1) for o, d in self.roots if d + 1 <= MAXD)
        if r:
            out.append(V(r))
        if self.el is not None:
            out.append(self.el)
        if self.items:
            out.extend(self.items.values() if isinstance(self.items, dict) else self.items)
        return joinall(out)

    def field(self, k):
        """the element under a constant key."""
        if isinstance(self.items, dict):
            out = []
            r = frozenset((o, d + 1) for o, d in self.roots if d + 1 <= MAXD)
            if r:
                out.append(V(r))
            if self.el is not None:
                out.append(self.el)
            if k in self.items:
                out.append(self.items[k])
            return joinall(out)
        return self.elem()


FRESH = V()


def join(a, b):
    if a is b or b is FRESH:
        return a
    if a is FRESH:
        return b
    el = None
    if a.el is not None or b.el is not None:
        el = a.el if b.el is None else b.el if a.el is None else join(a.el, b.el)
    items = None
    if isinstance(a.items, dict) and isinstance(b.items, dict):
        items = dict(a.items)
        for k, x in b.items.items():
            items[k] = join(items[k], x) if k in items else x
    elif isinstance(a.items, list) and isinstance(b.items, list) and len(a.items) == len(b.items):
        items = [join(x, y) for x, y in zip(a.items, b.items)]
    elif isinstance(a.items, dict) and not b.items or isinstance(b.items, dict) and not a.items:
        items = a.items or b.items
    else:
        for q in (a, b):
            if q.items:
                for x in (q.items.values() if isinstance(q.items, dict) else q.items):
                    el = x if el is None else join(el, x)
    return V(a.roots | b.roots, el, a.cls if a.cls == b.cls else (a.cls or b.cls), a.ctor or b.ctor, items, a.arr or b.arr)


def joinall(vs):
    out = FRESH
    for v in vs:
        out = join(out, v)
    return out


def descend(v, d):
    for _ in range(d):
        v = v.elem()
    return v


REDUCE = {'sum', 'min', 'max', 'mean', 'median', 'std', 'argsort', 'argmax', 'argmin', 'shape', 'cumsum', 'nansum', 'nanmax', 'nanmin'}


def used_as_array(node):
    """names the function reduces with numpy: numbers would not need it."""
    got = getattr(node, '_arrays', None)
    if got is None:
        got = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in REDUCE and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy', 'jnp') \
                    and n.args and isinstance(n.args[0], ast.Name):
                got.add(n.args[0].id)
        node._arrays = got
    return got


class Fn:
    def __init__(self, node, mod, cls, outer=None):
        self.node = node
        self.mod = mod
        self.cls = cls
        self.outer = outer
        self.name = node.name
        self.qual = '.'.join(x for x in (mod.name, cls.name if cls else None, node.name) if x)
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        decs = {ast.unparse(d).split('(')[0].split('.')[-1] for d in node.decorator_list}
        self.static = 'staticmethod' in decs
        self.classm = 'classmethod' in decs
        self.prop = 'property' in decs or 'setter' in decs
        self.method = cls is not None and not self.static
        self.effects = {}       # root -> (line, description)
        self.ret = FRESH
        self.doc = ast.get_docstring(node) or ''
        self.arrays = set()
        for p in self.params + self.kwonly:
            if p in ARRAY_NAMES:
                self.arrays.add(p)
            m = re.search(r':param %s:([^\n]*)' % re.escape(p), self.doc)
            if p in used_as_array(node):
                self.arrays.add(p)
            if m and re.search(r'array|grid|image\b|2d|vector', m.group(1), re.I) and not re.search(r'\b(int|integer|bool|string|float)\b', m.group(1), re.I):
                self.arrays.add(p)


class Cls:
    def __init__(self, node, mod):
        self.node = node
        self.mod = mod
        self.name = node.name
        self.qual = mod.name + '.' + node.name
        self.methods = {}
        self.bases = []
        self.attr_alias = {}    # attribute -> set of (ctor param, depth) it may alias
        self.attr_all = {}      # attribute -> every class an instance of which the constructor may store there
        self.attr_cls = {}      # attribute -> (Cls, {param: V in terms of the constructor's parameters}) or None if several


class Mod:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.names = {}         # name -> ('mod', modname) | ('from', modname, attr)
        self.funcs = {}
        self.classes = {}


class Repo:
    def __init__(self, root, package='lenstronomy', shared=False):
        self.root = root
        self.shared = shared    # track objects of modules, classes and default arguments too
        self.mods = {}
        self.fns = []
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    self.mods[rel] = Mod(rel, os.path.relpath(p, root), ast.parse(src, p))
        self.by_method = {}
        for m in self.mods.values():
            self._scan(m)
        for m in self.mods.values():
            for c in m.classes.values():
                c.bases = [b for b in (self.resolve_class(m, x) for x in c.node.bases) if b]
        self.subs = {}
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.bases:
                    self.subs.setdefault(b, []).append(c)
        self.class_attrs = {}
        if shared:
            self._shared()

    def _shared(self):
        """containers and arrays bound in the body of a module or of a class."""
        for m in self.mods.values():
            m.glob = {}
            for n in statements(m.tree.body):
                for t, v in bindings(n):
                    if mutable(v):
                        m.glob[t] = 'glob:%s.%s' % (m.name, t)
            for c in m.classes.values():
                c.glob = {}
                for n in statements(c.node.body):
                    for t, v in bindings(n):
                        if mutable(v):
                            c.glob[t] = 'glob:%s.%s' % (c.qual, t)
        own = set()
        for f in self.fns:
            if f.method and f.params:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params[0]:
                        own.add(n.attr)
                        if f.name == '__init__':
                            f.cls.__dict__.setdefault('bound', set()).add(n.attr)
        for m in self.mods.values():
            for c in m.classes.values():
                for a in c.glob:
                    if not a.startswith('__') and (a not in own or sum(a in q.glob for w in self.mods.values() for q in w.classes.values()) > 4):
                        self.class_attrs.setdefault(a, 'glob:<class>.%s' % a)

    def class_attr(self, c, attr):
        """the container `attr` of the class body, unless the constructor binds one for the instance."""
        for x in self.mro(c):
            if attr in getattr(x, 'bound', ()):
                return None
            if attr in x.glob:
                return x.glob[attr]
        return None

    def global_of(self, m, name, seen=()):
        """root of the module-level object a name denotes in m, following imports."""
        if m is None or m.name in seen:
            return None
        if name in m.glob:
            return m.glob[name]
        t = m.names.get(name)
        if t is not None and t[0] == 'from':
            return self.global_of(self.mods.get(t[1]), t[2], seen + (m.name,))
        return None

    def _scan(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.names[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    m.names[a.asname or a.name] = ('from', n.module, a.name)
        for n in m.tree.body:
            self._top(n, m)

    def _top(self, n, m):
        if isinstance(n, ast.FunctionDef):
            f = Fn(n, m, None)
            m.funcs[n.name] = f
            self.fns.append(f)
        elif isinstance(n, ast.ClassDef):
            c = Cls(n, m)
            m.classes[n.name] = c
            for x in n.body:
                if isinstance(x, ast.FunctionDef):
                    f = Fn(x, m, c)
                    c.methods.setdefault(x.name, f)
                    self.fns.append(f)
                    self.by_method.setdefault(x.name, []).append(f)
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body + getattr(n, 'orelse', []):
                self._top(x, m)
            for h in getattr(n, 'handlers', []):
                for x in h.body:
                    self._top(x, m)

    def lookup(self, modname, attr, seen=()):
        m = self.mods.get(modname)
        if m is None or modname in seen:
            return None
        if attr in m.classes:
            return m.classes[attr]
        if attr in m.funcs:
            return m.funcs[attr]
        t = m.names.get(attr)
        if t is None:
            sub = modname + '.' + attr
            return self.mods.get(sub)
        if t[0] == 'mod':
            return self.mods.get(t[1])
        r = self.lookup(t[1], t[2], seen + (modname,))
        return r if r is not None else self.mods.get(t[1] + '.' + t[2])

    def resolve(self, m, e):
        """module-level object denoted by a Name/Attribute expression, or None."""
        if isinstance(e, ast.Name):
            if e.id in m.classes:
                return m.classes[e.id]
            if e.id in m.funcs:
                return m.funcs[e.id]
            t = m.names.get(e.id)
            if t is None:
                return None
            if t[0] == 'mod':
                return self.mods.get(t[1])
            r = self.lookup(t[1], t[2])
            return r if r is not None else self.mods.get(t[1] + '.' + t[2])
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value)
            if isinstance(b, Mod):
                return self.lookup(b.name, e.attr)
            if isinstance(b, Cls):
                return self.method(b, e.attr)
            if b is None:
                # import a.b.c: dotted chain
                d = dotted(e)
                if d and d in self.mods:
                    return self.mods[d]
        return None

    def resolve_class(self, m, e):
        r = self.resolve(m, e)
        return r if isinstance(r, Cls) else None

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo = x.bases + todo
        return out

    def method(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
        return None

    def family(self, c, name):
        """the method seen from c and the overriding ones in its subclasses."""
        out = []
        f = self.method(c, name)
        if f:
            out.append(f)
        todo = list(self.subs.get(c, ()))
        while todo:
            x = todo.pop()
            if name in x.methods and x.methods[name] not in out:
                out.append(x.methods[name])
            todo.extend(self.subs.get(x, ()))
        return out

    def attr_info(self, c, attr):
        al, cl = set(), None
        for x in self.mro(c):
            al |= x.attr_alias.get(attr, set())
            cl = cl or x.attr_cls.get(attr)
        return al, cl


def statements(body):
    for n in body:
        if isinstance(n, (ast.If, ast.Try, ast.With, ast.For)):
            for q in ('body', 'orelse', 'finalbody'):
                yield from statements(getattr(n, q, None) or ())
            for h in getattr(n, 'handlers', ()):
                yield from statements(h.body)
        else:
            yield n


def bindings(n):
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Name):
                yield t.id, n.value
    elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
        yield n.target.id, n.value


def mutable(e):
    """an expression whose value is a container or an array."""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        return d is not None and d.split('.')[-1] in ('dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'array', 'zeros', 'ones', 'empty', 'full', 'linspace', 'arange', 'deque', 'Counter', 'WeakKeyDictionary', 'WeakValueDictionary', 'deepcopy')
    return isinstance(e, ast.BinOp) and (mutable(e.left) or mutable(e.right))


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


class Walker:
    """one pass over a function body."""

    def __init__(self, repo, fn):
        self.repo = repo
        self.fn = fn
        self.env = {}
        self.calls = []
        self.sites = 0
        f = fn
        ps = f.params
        if f.method and ps:
            self.selfname = ps[0]
            ps = ps[1:]
        else:
            self.selfname = None
        for p in ps + f.kwonly:
            self.env[p] = V({(p, 0)}, arr=p in f.arrays)
        if repo.shared:
            a = f.node.args
            for p, d in list(zip(reversed([q.arg for q in a.posonlyargs + a.args]), reversed(a.defaults))) + [(q.arg, d) for q, d in zip(a.kwonlyargs, a.kw_defaults)]:
                if d is not None and mutable(d):
                    self.env[p] = V({(p, 0), ('glob:default of %s(%s)' % (f.qual, p), 0)}, arr=p in f.arrays)
            self.globals = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
        if f.vararg:
            self.env[f.vararg] = V(el=V({(f.vararg, 1)}))
        if f.kwarg:
            self.env[f.kwarg] = V(el=V({(f.kwarg, 1)}))
        self.rets = []

    # -- effects
    def hit(self, v, node, what, d=0, leaf=None):
        self.sites += 1
        for o, k in descend(v, d).roots:
            self.fn.effects.setdefault((o, k), (node.lineno, what, leaf or (self.fn.qual, what, node.lineno)))

    # -- statements
    def block(self, body):
        """False if control cannot leave the block at its end."""
        for s in body:
            if self.stmt(s) is False:
                return False
        return True

    def stmt(self, s):
        t = type(s)
        if t is ast.Assign:
            v = self.ev(s.value)
            for x in s.targets:
                self.assign(x, v)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif t is ast.AugAssign:
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.env.get(s.target.id, FRESH)
                if old.arr and old.roots and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.FloorDiv, ast.Mod)):
                    self.hit(old, s, 'augmented assignment to %s' % s.target.id)
                elif isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.ListComp)) and old.roots:
                    self.hit(old, s, 'augmented assignment to %s' % s.target.id)
                    self.env[s.target.id] = join(old, v)
                elif not old.roots:
                    self.env[s.target.id] = join(old, v) if old.el is not None else V(arr=old.arr)
                else:
                    self.env[s.target.id] = V(old.roots if old.arr else (), arr=old.arr)
            elif isinstance(s.target, ast.Subscript):
                self.ev(s.target.slice)
                self.hit(self.ev(s.target.value), s, 'augmented assignment to %s' % ast.unparse(s.target))
            elif isinstance(s.target, ast.Attribute):
                a = self.ev(s.target)
                if a.arr or isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.ListComp)):
                    self.hit(a, s, 'augmented assignment to %s' % ast.unparse(s.target))
        elif t is ast.Expr:
            self.ev(s.value)
        elif t is ast.Return:
            if s.value is not None:
                self.rets.append(self.ev(s.value))
            return False
        elif t in (ast.Raise,):
            return False
        elif t in (ast.Continue, ast.Break):
            return None
        elif t is ast.If:
            self.ev(s.test)
            e0 = dict(self.env)
            self.narrow(s.test, True)
            a = self.block(s.body)
            ea = self.env
            self.env = dict(e0)
            self.narrow(s.test, False)
            b = self.block(s.orelse)
            if a is False and b is False:
                return False
            if a is False:
                pass
            elif b is False:
                self.env = ea
            else:
                self.env = self.merge(ea, self.env)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(s.iter)
            for _ in range(2):
                e0 = dict(self.env)
                self.assign(s.target, self.iterelem(s.iter, it))
                self.block(s.body)
                self.env = self.merge(e0, self.env)
            self.block(s.orelse)
        elif t is ast.While:
            self.ev(s.test)
            for _ in range(2):
                e0 = dict(self.env)
                self.block(s.body)
                self.env = self.merge(e0, self.env)
            self.block(s.orelse)
        elif t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            return self.block(s.body)
        elif t is ast.Try:
            e0 = dict(self.env)
            r = self.block(s.body)
            e1 = self.env
            outs = [e1] if r is not False else []
            for h in s.handlers:
                self.env = self.merge(dict(e0), dict(e1))
                if self.block(h.body) is not False:
                    outs.append(self.env)
            self.env = outs[0] if outs else dict(e1)
            for e in outs[1:]:
                self.env = self.merge(self.env, e)
            if r is not False:
                self.block(s.orelse)
            self.block(s.finalbody)
            if not outs:
                return False
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    self.hit(self.ev(x.value), s, 'del %s' % ast.unparse(x))
                elif isinstance(x, ast.Name):
                    self.env.pop(x.id, None)
        elif t is ast.FunctionDef:
            # nested function: its body sees the enclosing variables
            w = Walker(self.repo, Fn(s, self.fn.mod, None, self.fn))
            inner = {k: v for k, v in w.env.items()}
            w.env = dict(self.env)
            w.env.update({k: V() for k in inner})
            w.fn.effects = self.fn.effects
            w.selfname = self.selfname
            w.fn.cls = self.fn.cls
            w.block(s.body)
            self.sites += w.sites
            self.env[s.name] = FRESH
        elif t is ast.Assert:
            self.ev(s.test)
        return True

    def narrow(self, test, pos):
        """p is None: on that branch p is not a caller's container."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isn = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if isn == pos and test.left.id in self.env:
                self.env[test.left.id] = FRESH
        elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.narrow(test.operand, not pos)
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and pos and isinstance(test.args[0], ast.Name) and len(test.args) == 2:
            tn = ast.unparse(test.args[1])
            if re.fullmatch(r'\(?(int|float|np\.float64|np\.floating|numbers\.Number|str|bool|complex|,| )+\)?', tn) and test.args[0].id in self.env:
                self.env[test.args[0].id] = FRESH
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and pos and all(
                isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'isinstance' and isinstance(q.args[0], ast.Name)
                and ast.unparse(q.args[1]) in ('int', 'float', 'str', 'np.float64', 'complex') for q in test.values):
            for q in test.values:
                if q.args[0].id in self.env:
                    self.env[q.args[0].id] = FRESH

    @staticmethod
    def merge(a, b):
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            elif k[0] == '@':
                continue
            else:
                out[k] = a.get(k) or b.get(k)
        return out

    def forget(self, name):
        for k in [k for k in self.env if k[0] == '@' and re.search(r'\b%s\b' % re.escape(name), k)]:
            del self.env[k]

    def iterelem(self, e, it):
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'enumerate' and e.args:
                return V(items=[FRESH, self.iterelem(e.args[0], self.ev(e.args[0]))])
            if isinstance(f, ast.Name) and f.id == 'zip':
                return V(items=[self.iterelem(a, self.ev(a)) for a in e.args])
            if isinstance(f, ast.Attribute) and f.attr == 'items' and not e.args:
                return V(items=[FRESH, self.ev(f.value).elem()])
            if isinstance(f, ast.Attribute) and f.attr == 'keys':
                return FRESH
            if isinstance(f, ast.Attribute) and f.attr == 'values' and not e.args:
                return self.ev(f.value).elem()
        return it.elem()

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if self.repo.shared and t.id in getattr(self, 'globals', ()):
                self.hit(V({('glob:%s.%s' % (self.fn.mod.name, t.id), 0)}), t, 'assignment to global %s' % t.id)
            if v.roots and not v.arr and t.id in used_as_array(self.fn.node):
                v = V(v.roots, v.el, v.cls, v.ctor, v.items, True)
            self.env[t.id] = v
            self.forget(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v.items, list) and v.items and len(v.items) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, q in zip(t.elts, v.items):
                    self.assign(x, q)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v.elem())
        elif isinstance(t, ast.Subscript):
            v0 = v
            self.ev(t.slice)
            base = self.ev(t.value)
            self.hit(base, t, 'assignment to %s' % ast.unparse(t))
            # the element is now part of a local container
            n = t.value
            while isinstance(n, ast.Subscript):
                n = n.value
                v = V(el=v)
            if isinstance(n, ast.Name) and n.id in self.env and not isinstance(t.slice, ast.Slice) and (v.roots or v.el is not None or v.items or isinstance(t.slice, ast.Constant)) and not base.arr:
                o = self.env[n.id]
                if n is t.value:
                    self.forget(n.id)
                else:
                    for kk in [q for q in self.env if q[0] == '@' and re.search(r'\b%s\b' % re.escape(n.id), q)]:
                        self.env[kk] = join(self.env[kk], V(el=v))
                if n is t.value and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) and (isinstance(o.items, dict) or o.items is None):
                    it = dict(o.items or {})
                    it[t.slice.value] = v
                    self.env[n.id] = V(o.roots, o.el, o.cls, o.ctor, it, o.arr)
                else:
                    el = v if o.el is None else join(o.el, v)
                    it = o.items
                    if it and not (isinstance(it, dict) and n is t.value and not isinstance(t.slice, ast.Constant)):
                        el = joinall([el] + list(it.values() if isinstance(it, dict) else it))
                        it = None
                    self.env[n.id] = V(o.roots, el, o.cls, o.ctor, it, o.arr)
            elif isinstance(n, ast.Name) and n is t.value:
                self.forget(n.id)
            if isinstance(n, ast.Name) and n is t.value and not isinstance(t.slice, ast.Slice) and all(
                    isinstance(q, (ast.Name, ast.Constant, ast.Subscript, ast.Load, ast.Store)) for q in ast.walk(t.slice)) and not base.arr:
                # what was stored under this very key is what is read back until the container or the key changes
                self.env['@' + ast.unparse(t)] = v0
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                self.env['self.' + t.attr] = v
                c = self.fn.cls
                if c is not None and self.fn.name == '__init__':
                    al = {(o, d) for o, d in v.roots if not o.startswith('self.')}
                    if al:
                        c.attr_alias.setdefault(t.attr, set()).update(al)
                    if self.repo.shared and v.el is not None:
                        for q in range(1, 3):
                            al = {(o, d - q) for o, d in descend(v, q).roots if o.startswith('glob:')}
                            if al:
                                c.attr_alias.setdefault(t.attr, set()).update(al)
                    if v.cls is not None:
                        c.attr_all.setdefault(t.attr, set()).add(v.cls)
                        old = c.attr_cls.get(t.attr)
                        if old is None or old[0] is v.cls:
                            c.attr_cls[t.attr] = (v.cls, v.ctor or {})
                elif c is not None and self.repo.shared:
                    al = {(o, d) for o, d in v.roots if o.startswith('glob:')}
                    if al:
                        c.attr_alias.setdefault(t.attr, set()).update(al)
            else:
                self.ev(t.value)
                if self.repo.shared:
                    x = self.repo.resolve(self.fn.mod, t.value) if dotted(t.value) and dotted(t.value).split('.')[0] not in self.env else None
                    if x is None and self.of_class(t.value):
                        x = self.fn.cls
                    if isinstance(x, (Cls, Mod)):
                        self.hit(V({('glob:%s.%s' % (x.qual if isinstance(x, Cls) else x.name, t.attr), 0)}), t, 'assignment to %s' % ast.unparse(t))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, V(el=v.elem()))

    # -- expressions
    def ev(self, e):
        if e is None:
            return FRESH
        t = type(e)
        if t is ast.Name:
            if self.repo.shared and e.id not in self.env:
                g = self.repo.global_of(self.fn.mod, e.id)
                return FRESH if g is None else V({(g, 0)})
            return self.env.get(e.id, FRESH)
        if t is ast.Constant:
            return FRESH
        if t is ast.Attribute:
            if isinstance(e.value, ast.Name) and e.value.id == self.selfname and self.fn.cls is not None:
                k = 'self.' + e.attr
                if k in self.env:
                    return self.env[k]
                al, cl = self.repo.attr_info(self.fn.cls, e.attr)
                m = self.repo.method(self.fn.cls, e.attr)
                if m is not None and m.prop:
                    return self.subst(m.ret, m, {}, V(), True)
                if self.repo.shared:
                    g = self.repo.class_attr(self.fn.cls, e.attr)
                    return V({(k, 0)} | {(o, d) for o, d in al if o.startswith('glob:')} | ({(g, 0)} if g else set()), cls=cl[0] if cl else None)
                return V({(k, 0)}, cls=cl[0] if cl else None)
            v = self.ev(e.value)
            if self.repo.shared:
                g = None
                x = self.repo.resolve(self.fn.mod, e.value) if dotted(e.value) and dotted(e.value).split('.')[0] not in self.env else None
                if x is None and self.of_class(e.value):
                    x = self.fn.cls
                if isinstance(x, Mod):
                    g = self.repo.global_of(x, e.attr)
                elif isinstance(x, Cls):
                    g = next((q.glob[e.attr] for q in self.repo.mro(x) if e.attr in q.glob), None)
                elif v.cls is not None:
                    al, _ = self.repo.attr_info(v.cls, e.attr)
                    ks = {o for o in (v.ctor or {})}
                    rs = {(o, d) for o, d in al if o.startswith('glob:') and not any(o.endswith('(%s)' % q) for q in ks)}
                    g = self.repo.class_attr(v.cls, e.attr)
                    return V(rs | ({(g, 0)} if g else set()))
                elif x is None:
                    g = self.repo.class_attrs.get(e.attr)
                if g:
                    return V({(g, 0)})
            if e.attr == 'T':
                return V(v.roots, v.el, arr=v.arr)
            return FRESH
        if t is ast.Subscript:
            self.ev(e.slice)
            v = self.ev(e.value)
            sl = e.slice
            has = isinstance(sl, ast.Slice) or isinstance(sl, ast.Tuple) and any(isinstance(q, ast.Slice) for q in sl.elts)
            if has:
                if v.arr:
                    return V(v.roots, v.el, arr=True)
                return V(el=v.elem())
            key = '@' + ast.unparse(e)
            if key in self.env:
                return self.env[key]
            if isinstance(sl, ast.Constant) and isinstance(sl.value, int) and isinstance(v.items, list) and v.items and -len(v.items) <= sl.value < len(v.items):
                return v.items[sl.value]
            if v.arr:
                return FRESH
            r = v.field(sl.value) if isinstance(sl, ast.Constant) and isinstance(sl.value, str) else v.elem()
            if isinstance(sl, ast.Constant) and isinstance(sl.value, str) and sl.value in ARRAY_KEYS:
                r = V(r.roots, r.el, r.cls, r.ctor, r.items, True)
            return r
        if t in (ast.Tuple, ast.List, ast.Set):
            vs = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return V(el=joinall([v.elem() if isinstance(x, ast.Starred) else v for x, v in zip(e.elts, vs)]))
            return V(items=vs) if t is not ast.Set else V(el=joinall(vs))
        if t is ast.Dict:
            out = V(items={})
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None:
                    out = join(out, self.shallow(v))
                elif isinstance(k, ast.Constant) and isinstance(k.value, str):
                    it = dict(out.items) if isinstance(out.items, dict) else {}
                    it[k.value] = v
                    out = V(out.roots, out.el, items=it)
                else:
                    out = V(out.roots, v if out.el is None else join(out.el, v), items=out.items)
            return out
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            saved = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.assign(g.target, self.iterelem(g.iter, it))
                for c in g.ifs:
                    self.ev(c)
            v = self.ev(e.value if t is ast.DictComp else e.elt)
            self.env = saved
            return V(el=v)
        if t is ast.IfExp:
            self.ev(e.test)
            e0 = dict(self.env)
            self.narrow(e.test, True)
            a = self.ev(e.body)
            self.env = dict(e0)
            self.narrow(e.test, False)
            b = self.ev(e.orelse)
            self.env = e0
            return join(a, b)
        if t is ast.BoolOp:
            return joinall([self.ev(x) for x in e.values])
        if t is ast.BinOp:
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, ast.Add) and (a.el is not None or b.el is not None or a.items or b.items):
                return V(el=join(a.elem(), b.elem()))
            return V(arr=a.arr or b.arr)
        if t is ast.UnaryOp:
            v = self.ev(e.operand)
            return V(arr=v.arr)
        if t is ast.Compare:
            self.ev(e.left)
            for c in e.comparators:
                self.ev(c)
            return FRESH
        if t is ast.Call:
            return self.call(e)
        if t is ast.Lambda:
            return FRESH
        if t is ast.NamedExpr:
            v = self.ev(e.value)
            self.assign(e.target, v)
            return v
        if t is ast.Starred:
            return self.ev(e.value)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def of_class(self, e):
        """type(self), self.__class__ or the class a classmethod is given."""
        if self.fn.cls is None:
            return False
        if isinstance(e, ast.Name):
            return self.fn.classm and e.id == self.selfname
        if isinstance(e, ast.Attribute):
            return e.attr == '__class__' and isinstance(e.value, ast.Name) and e.value.id == self.selfname
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == self.selfname

    @staticmethod
    def shallow(v):
        """a new container with the same elements."""
        r = V(frozenset((o, d + 1) for o, d in v.roots if d + 1 <= MAXD)) if v.roots else None
        el = v.el if r is None else r if v.el is None else join(r, v.el)
        return V((), el, items=dict(v.items) if isinstance(v.items, dict) else list(v.items) if v.items else None, arr=v.arr)

    def call(self, e):
        f = e.func
        args = [(isinstance(a, ast.Starred), self.ev(a.value if isinstance(a, ast.Starred) else a)) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        pos = [v for s, v in args if not s]
        # keyword out= of numpy
        for k, v in kws:
            if k == 'out':
                self.hit(v, e, 'out= argument of %s' % ast.unparse(f))
        d = dotted(f)
        if d:
            last = d.split('.')[-1]
            head = d.split('.')[0]
            tgt = self.fn.mod.names.get(head)
            ext = tgt is not None and tgt[1].split('.')[0] in ('numpy', 'scipy', 'copy', 'jax', 'itertools', 'collections', 'random')
            if d in ('copy.deepcopy', 'deepcopy'):
                return FRESH
            if d == 'copy.copy' or (d == 'copy' and ext):
                return self.shallow(pos[0] if pos else FRESH)
            if isinstance(f, ast.Name) and f.id in SHALLOW and f.id not in self.env:
                if f.id != 'dict':
                    return self.shallow(pos[0]) if pos else V()
                out = self.shallow(pos[0]) if pos else V(items={})
                for k, x in kws:
                    if k is None:
                        out = join(out, self.shallow(x))
                    else:
                        it = dict(out.items) if isinstance(out.items, dict) else {}
                        it[k] = x
                        out = V(out.roots, out.el, items=it)
                return out
            if isinstance(f, ast.Name) and f.id in ('zip', 'enumerate', 'map', 'filter', 'iter', 'next'):
                return V(el=joinall([v.elem() for v in pos]))
            if ext and tgt[1].split('.')[0] in ('numpy', 'jax'):
                if last in ('put', 'copyto', 'fill_diagonal', 'place', 'putmask') and pos:
                    self.hit(pos[0], e, d)
                if last == 'shuffle' and pos:
                    self.hit(pos[0], e, d)
                if last in ALIAS_FUNCS and pos:
                    return V(pos[0].roots, pos[0].el, arr=True)
                if last == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value in (False, None) for k in e.keywords) and pos:
                    return V(pos[0].roots, pos[0].el, arr=True)
                return V(arr=True)
        tgt = None
        recv = None
        if isinstance(f, ast.Name) and f.id in self.env:
            o = self.env[f.id]
            g = self.repo.method(o.cls, '__call__') if o.cls is not None else None
            if g is not None:
                return self.apply(g, args, kws, e, o, False)
        elif isinstance(f, ast.Name):
            tgt = self.repo.resolve(self.fn.mod, f)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == self.selfname and self.fn.cls is not None:
                fam = self.repo.family(self.fn.cls, f.attr)
                if fam:
                    return joinall([self.apply(g, args, kws, e, V(), True) for g in fam])
                for c in sorted({q for x in self.repo.mro(self.fn.cls) for q in x.attr_all.get(f.attr, ())}, key=lambda q: q.qual):
                    g = self.repo.method(c, '__call__')
                    if g is not None:
                        fam.append(g)
                if fam:
                    return joinall([self.apply(g, args, kws, e, V(), False) for g in fam])
                recv = self.env.get('self.' + f.attr)
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.fn.cls is not None:
                for b in self.fn.cls.bases:
                    g = self.repo.method(b, f.attr)
                    if g is not None:
                        return self.apply(g, args, kws, e, V(), True)
                return FRESH
            else:
                tgt = self.repo.resolve(self.fn.mod, f) if dotted(f) and dotted(f).split('.')[0] not in self.env else None
                if tgt is None:
                    recv = self.ev(f.value)
        if isinstance(tgt, Cls):
            return self.construct(tgt, args, kws, e)
        if isinstance(tgt, Fn):
            if tgt.method and tgt.cls is not None:
                # Class.method(obj, ...) or Base.__init__(self, ...)
                is_self = bool(e.args) and isinstance(e.args[0], ast.Name) and e.args[0].id == self.selfname
                return self.apply(tgt, args[1:], kws, e, V(), is_self)
            return self.apply(tgt, args, kws, e, None, False)
        if recv is not None and isinstance(f, ast.Attribute):
            name = f.attr
            if recv.cls is not None:
                g = self.repo.method(recv.cls, name)
                if g is not None:
                    return self.apply(g, args, kws, e, recv, False)
            if name in MUT_ANY:
                defined = self.repo.by_method.get(name)
                if recv.roots and (name not in AMBIGUOUS or not defined or self.containerish(f.value)):
                    self.hit(recv, e, '%s()' % ast.unparse(f))
                elif self.repo.shared and recv.roots:
                    # objects known to be containers from the expression that made them
                    self.hit(V({r for r in recv.roots if r[0].startswith('glob:')}), e, '%s()' % ast.unparse(f))
                # local containers remember what is stored in them
                if name in ('append', 'insert', 'add', 'extend', 'update') and isinstance(f.value, ast.Name) and f.value.id in self.env:
                    o = self.env[f.value.id]
                    x = joinall([v if name in ('append', 'insert', 'add') else v.elem() for v in pos] + [v for k, v in kws])
                    if x is not FRESH:
                        self.env[f.value.id] = V(o.roots, joinall([q for q in [o.el, x] + (list(o.items) if isinstance(o.items, list) else []) if q is not None]), o.cls, o.ctor, o.items if isinstance(o.items, dict) else None, o.arr)
                if name in ('pop', 'setdefault', 'popitem'):
                    return recv.elem()
                return FRESH
            if name == 'get':
                k = e.args[0] if e.args else None
                r = recv.field(k.value) if isinstance(k, ast.Constant) and isinstance(k.value, str) else recv.elem()
                return join(r, joinall(pos[1:]))
            if name in ('values', 'items'):
                return V(el=recv.elem())
            if name in SHALLOW_METHODS:
                return self.shallow(recv) if not recv.arr else V(arr=True)
            if name in ALIAS_METHODS:
                return V(recv.roots, recv.el, arr=True)
            if name in ('astype', 'flatten'):
                return V(arr=True)
            # a method of an object of unknown class: believed only if every method of that name in the repository agrees
            cand = self.repo.by_method.get(name, ())
            if cand and len(cand) <= 40 and not hasattr(dict, name) and not hasattr(list, name):
                common = None
                for g in cand:
                    w = set(self.bound_roots(g, args, kws))
                    common = w if common is None else common & w
                for o, k in common or ():
                    self.sites += 1
                    self.fn.effects.setdefault((o, k), (e.lineno, 'call of %s()' % ast.unparse(f), ('any ' + name, ast.unparse(f), 0)))
        return FRESH

    @staticmethod
    def containerish(e):
        n = ast.unparse(e)
        return bool(re.search(r'kwargs|_list|list_|dict|fixed|params|samples', n))

    def bind(self, g, args, kws, is_obj):
        ps = g.params[1:] if g.method else g.params
        out = {}
        i = 0
        for star, v in args:
            if star:
                for p in ps[i:]:
                    out[p] = v.elem()
                i = len(ps)
            elif i < len(ps):
                out[ps[i]] = v
                i += 1
            elif g.vararg:
                o = out.get(g.vararg, V())
                out[g.vararg] = V(el=join(o.el or FRESH, v))
        rest = {}
        for k, v in kws:
            if k is None:
                for p in ps[i:] + g.kwonly:
                    if p not in out:
                        rest[p] = join(rest.get(p, FRESH), v.field(p))
                if g.kwarg:
                    o = out.get(g.kwarg, V())
                    out[g.kwarg] = V(el=join(o.el or FRESH, v.elem()))
            elif k in ps or k in g.kwonly:
                out[k] = v
            elif g.kwarg:
                o = out.get(g.kwarg, V())
                out[g.kwarg] = V(el=join(o.el or FRESH, v))
        for p, v in rest.items():
            out.setdefault(p, v)
        return out

    def bound_roots(self, g, args, kws):
        b = self.bind(g, args, kws, True)
        for (o, d), (line, what, leaf) in g.effects.items():
            if o in b:
                for r in descend(b[o], d).roots:
                    yield r

    def apply(self, g, args, kws, e, recv, is_self):
        b = self.bind(g, args, kws, g.method)
        self.calls.append((g, b))
        for (o, d), (line, what, leaf) in list(g.effects.items()):
            via = 'call of %s (line %d: %s)' % (g.qual.replace('lenstronomy.', ''), line, what)
            if len(via) > 400:
                via = via[:400]
            if o in b:
                v = b[o]
                if not v.arr and what.startswith('augmented assignment to') and v.roots and all(k == 0 for _, k in v.roots) and not self.known_array(v, g, o):
                    continue
                self.hit(v, e, via, d, leaf)
            elif o.startswith('self.'):
                if is_self:
                    self.sites += 1
                    self.fn.effects.setdefault((o, d), (e.lineno, via, leaf))
                elif recv is not None and (recv.ctor or recv.cls):
                    self.on_object(recv, o[5:], d, e, via, leaf)
        return self.subst(g.ret, g, b, recv, is_self)

    def known_array(self, v, g, o):
        return o in g.arrays

    def on_object(self, recv, attr, d, e, via, leaf):
        c = recv.cls
        al, _ = self.repo.attr_info(c, attr)
        for p, k in al:
            if p.startswith('glob:'):
                if not any(p.endswith('(%s)' % q) for q in (recv.ctor or ())):
                    self.hit(V({(p, k)}), e, via, d, leaf)
                continue
            v = (recv.ctor or {}).get(p)
            if v is not None:
                self.hit(v, e, via, k + d, leaf)
            else:
                # object kept in an attribute of ours: arguments in terms of our constructor's parameters
                for r, k0 in recv.roots:
                    if r.startswith('self.') and k0 == 0 and self.fn.cls is not None:
                        _, cl = self.repo.attr_info(self.fn.cls, r[5:])
                        if cl and p in cl[1]:
                            for q, kk in descend(cl[1][p], k + d).roots:
                                self.sites += 1
                                self.fn.effects.setdefault(('ctor:' + q, kk), (e.lineno, via, leaf))

    def subst(self, ret, g, b, recv, is_self):
        """the value returned by g in terms of the caller's values."""
        def go(v, n=0):
            if v is None or n > 6:
                return FRESH
            out = []
            keep = set()
            for o, d in v.roots:
                if o in b:
                    out.append(descend(b[o], d))
                elif o.startswith('self.') and is_self:
                    keep.add((o, d))
                elif o.startswith('glob:') and not any(o == 'glob:default of %s(%s)' % (g.qual, q) for q in b):
                    keep.add((o, d))
            w = V(keep, go(v.el, n + 1) if v.el is not None else None, v.cls, v.ctor and {k: go(x, n + 1) for k, x in v.ctor.items()},
                  ({k: go(x, n + 1) for k, x in v.items.items()} if isinstance(v.items, dict) else [go(x, n + 1) for x in v.items]) if v.items else None, v.arr)
            return joinall(out + [w])
        if g.qual in CONDITIONAL_ALIAS:
            return V(arr=True)
        return go(ret)

    def construct(self, c, args, kws, e):
        g = self.repo.method(c, '__init__')
        ctor = {}
        if g is not None:
            ctor = self.bind(g, args, kws, True)
            self.apply(g, args, kws, e, V(cls=c, ctor=ctor), False)
        return V(cls=c, ctor=ctor)


def analyse(repo, rounds=6):
    total = 0
    for k in range(rounds):
        before = sum(len(f.effects) for f in repo.fns)
        total = 0
        callers = {}
        for f in repo.fns:
            w = Walker(repo, f)
            w.block(f.node.body)
            f.ret = joinall(w.rets)
            total += w.sites
            for g, b in w.calls:
                callers.setdefault(g, []).append((f, b))
        if k and sum(len(f.effects) for f in repo.fns) == before:
            break
    repo.callers = callers
    repo.sites = total
    return repo
