"""Abstract values of the interpreter."""
EMPTY = frozenset()


class V:
    __slots__ = ()


class Top(V):
    """unknown value; g (optional) bounds the grade of every number it may contain."""
    __slots__ = ("deps", "own", "g")

    def __init__(self, deps=EMPTY, own=EMPTY, g=None):
        self.g = g
        self.deps = deps
        self.own = own

    def __repr__(self):
        return "Top"


TOP = Top()


class Const(V):
    """Python constant: str, int, float, bool, None, complex, bytes, Ellipsis."""
    __slots__ = ("v", "deps")

    def __init__(self, v, deps=EMPTY):
        self.v = v
        self.deps = deps

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Num(V):
    """number or numeric array.  pay: domain payload; own: alias tags; kind: 's','a','?'"""
    __slots__ = ("pay", "own", "kind")

    def __init__(self, pay, own=EMPTY, kind='?'):
        self.pay = pay
        self.own = own
        self.kind = kind

    def __repr__(self):
        return "Num(%r own=%s %s)" % (self.pay, sorted(self.own), self.kind)


class Tup(V):
    """tuple (or fixed-size array when arr=True)."""
    __slots__ = ("items", "arr")

    def __init__(self, items, arr=False):
        self.items = tuple(items)
        self.arr = arr

    def __repr__(self):
        return "Tup%s%r" % ("[arr]" if self.arr else "", self.items)


class Ref(V):
    """reference to a heap object."""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "Ref(%d)" % self.id


class Choice(V):
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Choice%r" % (self.alts,)


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return "Mod(%s)" % self.mod.name


class FuncV(V):
    __slots__ = ("node", "mod", "cls", "closure", "name", "kind", "defaults", "kwdefaults", "qual")

    def __init__(self, node, mod, cls=None, closure=None, kind='func', defaults=(), kwdefaults=None, qual=None):
        self.node = node
        self.mod = mod
        self.cls = cls
        self.closure = closure
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = kind  # func, static, class, property
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.qual = qual or self.name

    def __repr__(self):
        return "Func(%s)" % self.qual


class ClassV(V):
    __slots__ = ("name", "mod", "node", "bases", "attrs", "_mro", "ext_base", "setters")

    def __init__(self, name, mod, node, bases, attrs):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases
        self.attrs = attrs
        self._mro = None
        self.ext_base = any(not isinstance(b, ClassV) for b in bases)
        self.setters = {}

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] for b in self.bases if isinstance(b, ClassV)]
            seqs.append([b for b in self.bases if isinstance(b, ClassV)])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name], c
        return None, None

    def has_ext(self):
        return any(c.ext_base for c in self.mro())

    def subclass_of(self, o):
        return o in self.mro()

    @property
    def qual(self):
        return self.mod.name + "." + self.name

    def __repr__(self):
        return "Class(%s)" % self.name


class Bound(V):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "Bound(%r)" % self.func


class ExtV(V):
    """external (non-repo) object by dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class Native(V):
    """stand-in for a repository callable: fn(it, args, kw, S, node) -> value."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return "Native(%s)" % self.name


class ExtMeth(V):
    """method of a builtin container / array value."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return "ExtMeth(%s)" % self.name


class SuperV(V):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class ExtObj(V):
    """instance of an external class, built with args (opaque)."""
    __slots__ = ("path", "args", "kw", "deps")

    def __init__(self, path, args=(), kw=None, deps=EMPTY):
        self.path = path
        self.args = args
        self.kw = kw or {}
        self.deps = deps

    def __repr__(self):
        return "ExtObj(%s)" % self.path


class HObj:
    """immutable heap record."""
    __slots__ = ("kind", "cls", "items", "summ", "own", "tag", "wr")

    def __init__(self, kind, items, summ=None, cls=None, own=EMPTY, tag=None, wr=EMPTY):
        self.kind = kind      # 'list','dict','set','obj'
        self.items = items    # list: tuple or None ; dict/obj: dict
        self.summ = summ      # unknown elements (list) / unknown keys (dict)
        self.cls = cls
        self.own = own
        self.tag = tag        # allocation site / label
        self.wr = wr          # obj: attributes definitely written since the entry started

    def rep(self, **k):
        h = HObj(self.kind, self.items, self.summ, self.cls, self.own, self.tag, self.wr)
        for a, v in k.items():
            setattr(h, a, v)
        return h


class State:
    __slots__ = ("env", "heap")

    def __init__(self, env, heap):
        self.env = env
        self.heap = heap

    def copy(self):
        return State(dict(self.env), dict(self.heap))
