"""C09 objects keep no hidden state of other objects or of earlier calls."""
import ast
from .. import effects, lazy
from ..ctx import REPO
from ..values import *
from ..mlrel import decide

LM = 'lenstronomy.LensModel.lens_model:LensModel'
# process-wide settings by contract: likelihood handed to pool workers, and the helper that re-exports the package's names
BY_CONTRACT = ('lenstronomy.Sampling.Pool.parallelization_util.', 'lenstronomy.Util.package_util.')


def lens_names(repo):
    """registered lens names -> class, from the branches `lens_type == name` of the loader."""
    m = repo.mods.get('lenstronomy.LensModel.profile_list_base')
    out = {}
    if m is None:
        return out
    for f in m.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.comparators[0], ast.Constant) and isinstance(n.test.comparators[0].value, str):
                for q in n.body:
                    for r in ast.walk(q):
                        if isinstance(r, ast.Call):
                            c = repo.resolve(m, r.func)
                            if isinstance(c, effects.Cls):
                                out.setdefault(n.test.comparators[0].value, c)
                        elif isinstance(r, (ast.Name, ast.Attribute)):
                            c = repo.resolve(m, r)
                            if isinstance(c, effects.Cls):
                                out.setdefault(n.test.comparators[0].value, c)
    return out


def stateful(repo, L, c, seen=()):
    """what an instance keeps of the arguments of a call."""
    if c in seen:
        return None
    f = repo.method(c, 'set_static')
    if f is not None and f.cls.name != 'LensProfileBase':
        s = f.params[0]
        for n in ast.walk(f.node):
            if lazy.self_attr(n, s) and isinstance(n.ctx, ast.Store):
                return 'set_static keeps self.%s' % n.attr
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'set_static':
                return 'set_static of %s' % ast.unparse(n.func.value)
    for s in L.class_sites(c):
        if s.unkeyed:
            return '%s keeps self.%s of its arguments' % (s.fn.name, sorted(s.guards)[0])
    for x in repo.mro(c):
        for a, cs in sorted(x.attr_all.items()):
            for q in sorted(cs, key=lambda q: q.qual):
                w = [s for s in L.class_sites(q) if s.unkeyed]
                if w:
                    return 'self.%s: %s keeps self.%s of its arguments' % (a, w[0].fn.name, sorted(w[0].guards)[0])
    return None


def shared(ctx):
    ctx.rule('shared', 'no function writes into a container of a module, a class or a default argument')
    repo = effects.analyse(effects.Repo(REPO, shared=True))
    seen = set()
    for f in repo.fns:
        bad = {}
        for (o, d), (line, what, leaf) in sorted(f.effects.items()):
            if o.startswith('glob:') and not leaf[0].startswith(BY_CONTRACT) and not f.qual.startswith(BY_CONTRACT):
                bad.setdefault((leaf[0], leaf[1]), []).append((o[5:], line))
        for (q, what), hits in sorted(bad.items()):
            if (q, what) in seen:
                continue
            seen.add((q, what))
            ctx.bad('shared', '%s: %s' % (q.split('.', 1)[-1], what), 'changes %s for every other user' % ', '.join(sorted({h[0].replace('lenstronomy.', '') for h in hits})[:4]), '%s:%d' % (f.mod.path, hits[0][1]))
        if not bad:
            ctx.ok('shared', f.qual.split('.', 1)[-1], 'no effect on shared objects', '%s:%d' % (f.mod.path, f.node.lineno))
    ctx.min_ok('shared', 1800)
    n = sum(len(m.glob) for m in repo.mods.values()) + sum(len(c.glob) for m in repo.mods.values() for c in m.classes.values())
    ctx.stats = dict(getattr(ctx, 'stats', None) or {}, **{'functions': len(repo.fns), 'shared containers': n})


def state_reads(repo, c, attrs, seen):
    """attributes of the object read through methods and properties named in attrs."""
    out = set()
    for a in attrs:
        if a in seen:
            continue
        seen.add(a)
        f = repo.method(c, a)
        if f is None or not f.params or not f.method:
            out.add(a)
        else:
            r = {lazy.self_attr(n, f.params[0]) for n in ast.walk(f.node) if lazy.self_attr(n, f.params[0]) and isinstance(n.ctx, ast.Load)}
            out |= state_reads(repo, c, r, seen)
    return out


def caches(ctx, repo, L):
    ctx.rule('kept', 'a result kept from the arguments of an earlier call is dropped by the reset method of its class, or its arguments are compared')
    ctx.rule('derived', 'a result kept from attributes of the object is dropped by every method that replaces one of them')
    ctx.rule('nested', 'resetting an object resets the objects it holds that keep results of earlier calls')
    n = 0
    for m in repo.mods.values():
        for c in m.classes.values():
            rs = L.resets(c)
            gone, open_ = set(), False
            for f in rs.values():
                a, b = L.dropped(c, f)
                gone |= a
                open_ = open_ or b
            own = [s for s in L.class_sites(c) if s.fn.cls is c or any(s.fn.cls in repo.mro(c) and r.cls is c for r in rs.values())]
            for s in own:
                n += 1
                name = '%s.%s: %s' % (c.qual.split('.', 1)[1], s.fn.name, '/'.join(sorted(s.guards)))
                at = '%s:%d' % (s.fn.mod.path, s.node.lineno)
                if s.unkeyed:
                    drops = [f for f in rs.values() if L.dropped(c, f)[0] & s.guards]
                    why = [L.incomplete(c, f, s) for f in drops]
                    if drops and all(why):
                        ctx.bad('kept', name, 'value of %s of the first call is used for later ones; %s drops it only if %s' % (', '.join(sorted(s.unkeyed)), drops[0].name, why[0]), at)
                    elif s.guards & gone or not rs and c.name.startswith('_'):
                        ctx.ok('kept', name, 'dropped by %s' % ', '.join(rs), at)
                    elif open_:
                        ctx.undecided('kept', name, 'reset through names not tracked')
                    else:
                        ctx.bad('kept', name, 'value of %s of the first call is used for later ones%s' % (', '.join(sorted(s.unkeyed)), '; %s does not drop it' % ', '.join(rs) if rs else ''), at)
                elif s.keys:
                    ctx.ok('kept', name, 'compared with %s' % ', '.join(sorted(s.keys)), at)
                if s.fn.cls is c:
                    derived(ctx, repo, L, c, s, name, at)
            nested(ctx, repo, L, c, rs)
    ctx.min_ok('kept', 15)
    ctx.min_ok('derived', 10)


def derived(ctx, repo, L, c, s, name, at):
    """methods of the class and its subclasses that replace what the kept value was computed from."""
    todo, fam = [c], []
    while todo:
        x = todo.pop()
        if x not in fam:
            fam.append(x)
            todo += repo.subs.get(x, [])
    bad = 0
    for k in fam:
        reads = state_reads(repo, k, set(s.attrs), set()) - s.stored
        done = set()
        for x in repo.mro(k):
            for f in x.methods.values():
                if f.name in done or f.name == '__init__' or not f.method or not f.params:
                    continue
                done.add(f.name)
                if 'setter' in {ast.unparse(d).split('.')[-1] for d in f.node.decorator_list}:
                    pass
                if called_only_by_init(repo, k, f):
                    continue
                w = replaced(f)
                hit = w & reads
                if not hit:
                    continue
                a, open_ = L.dropped(k, f)
                if s.guards & a or s.stored & a:
                    why = L.incomplete(k, f, s)
                    if why:
                        bad += 1
                        ctx.bad('derived', '%s after %s' % (name, f.name), 'replaces self.%s and drops the value computed from it only if %s' % (sorted(hit)[0], why), '%s:%d' % (f.mod.path, f.node.lineno))
                    continue
                if open_:
                    continue
                bad += 1
                ctx.bad('derived', '%s after %s' % (name, f.name), 'replaces self.%s and leaves the value computed from it' % sorted(hit)[0], '%s:%d' % (f.mod.path, f.node.lineno))
        if k is not c:
            continue
    if not bad:
        ctx.ok('derived', name, 'attributes it depends on are never replaced without it (%d classes)' % len(fam), at)


def called_only_by_init(repo, c, f):
    if not f.name.startswith('_') or f.name.startswith('__'):
        return False
    users = set()
    for x in repo.mro(c) + repo.subs.get(c, []):
        for g in x.methods.values():
            if g.method and g.params and any(isinstance(n, ast.Call) and lazy.self_attr(n.func, g.params[0]) == f.name for n in ast.walk(g.node)):
                users.add(g.name)
    return users <= {'__init__'}


def replaced(f):
    """attributes a method binds, outside of tests for their absence."""
    s = f.params[0]
    out = set()

    def go(body, skip):
        for q in body:
            if isinstance(q, ast.If):
                go(q.body, skip | lazy.guards(q.test, s, True))
                go(q.orelse, skip | lazy.guards(q.test, s, False))
                continue
            if isinstance(q, (ast.For, ast.While, ast.With, ast.Try)):
                for k in ('body', 'orelse', 'finalbody'):
                    go(getattr(q, k, None) or (), skip)
                for h in getattr(q, 'handlers', ()):
                    go(h.body, skip)
                continue
            for n in ast.walk(q):
                a = lazy.self_attr(n, s)
                if a and isinstance(n.ctx, ast.Store) and a not in skip:
                    out.add(a)
    go(f.node.body, set())
    return out


def nested(ctx, repo, L, c, rs):
    for name, f in rs.items():
        if f.cls is not c:
            continue
        for a, cs in sorted({k: v for x in reversed(repo.mro(c)) for k, v in x.attr_all.items()}.items()):
            need = [q for q in cs if any(s.unkeyed for s in L.class_sites(q)) and L.resets(q)]
            if not need or len(cs) > len(need) and fixed_choice(repo, c, a):
                continue
            ok = resets_attr(repo, c, f, a, {n for q in need for n in L.resets(q)})
            lab = '%s.%s: self.%s' % (c.qual.split('.', 1)[1], name, a)
            if ok:
                ctx.ok('nested', lab, 'reset as well', '%s:%d' % (f.mod.path, f.node.lineno))
            else:
                ctx.bad('nested', lab, 'keeps the results of %s' % need[0].name, '%s:%d' % (f.mod.path, f.node.lineno))


def fixed_choice(repo, c, a):
    """the class binds attribute a through a constructor of a base called with constants only: which object it is was not decided."""
    f = c.methods.get('__init__')
    if f is None or a in {lazy.self_attr(n, f.params[0]) for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__':
            args = [x for x in n.args if not (isinstance(x, ast.Name) and x.id == f.params[0])] + [k.value for k in n.keywords]
            if args and not all(isinstance(x, ast.Constant) for x in args):
                return False
    return True


def resets_attr(repo, c, f, a, names, seen=()):
    s = f.params[0]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in names and a in {lazy.self_attr(q, s) for q in ast.walk(n.func.value)}:
                return True
            m = lazy.self_attr(n.func, s)
            g = repo.method(c, m) if m else None
            if g is None and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value.func) == 'super':
                for b in f.cls.bases:
                    g = g or repo.method(b, n.func.attr)
            if g is not None and g not in seen and g is not f and resets_attr(repo, c, g, a, names, seen + (f,)):
                return True
            if n.func.attr in names and isinstance(n.func.value, ast.Name):
                # alias or loop variable
                for q in ast.walk(f.node):
                    v = q.iter if isinstance(q, ast.For) and isinstance(q.target, ast.Name) and q.target.id == n.func.value.id else q.value if isinstance(q, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.func.value.id for t in q.targets) else None
                    if v is not None and a in {lazy.self_attr(z, s) for z in ast.walk(v)}:
                        return True
        if lazy.self_attr(n, s) == a and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
    return False


class Uses:
    """paths of a method: is every use of the kept results of self.<attr> between resets?"""

    def __init__(self, repo, L, c, attr, memo, resets):
        self.repo, self.L, self.c, self.attr, self.memo, self.resets = repo, L, c, attr, memo, resets
        self.sum = {}

    def method(self, f, stack=()):
        """(outcomes {(entry state -> exit states)}, exposed) of a call in either state; state: 0 = nothing kept, 1 = kept from this call, 2 = kept from before."""
        if f in self.sum:
            return self.sum[f]
        if f in stack:
            return {0: {0}, 1: {1}, 2: {2}}, False
        res, exposed = {}, False
        for st in (0, 1, 2):
            self.exposed = False
            end, done = self.block(f, f.node.body, {st}, stack + (f,))
            res[st] = end | done
            if st == 2:
                exposed = self.exposed
        self.sum[f] = (res, exposed)
        return self.sum[f]

    def block(self, f, body, states, stack):
        done = set()
        for q in body:
            if not states:
                break
            states, d = self.stmt(f, q, states, stack)
            done |= d
        return states, done

    def stmt(self, f, q, states, stack):
        if isinstance(q, (ast.FunctionDef, ast.ClassDef)):
            return states, set()
        if isinstance(q, ast.Return):
            return set(), self.expr(f, q, states, stack)
        if isinstance(q, ast.Raise):
            return set(), set()
        if isinstance(q, ast.If):
            s = self.expr(f, q.test, states, stack)
            a, d1 = self.block(f, q.body, s, stack)
            b, d2 = self.block(f, q.orelse, s, stack)
            return a | b, d1 | d2
        if isinstance(q, (ast.For, ast.While)):
            s = self.expr(f, q.iter if isinstance(q, ast.For) else q.test, states, stack)
            done = set()
            once = isinstance(q, ast.While) and isinstance(q.test, ast.Constant) and q.test.value
            out = set() if once else set(s)
            for _ in range(3):
                e, d = self.block(f, q.body, s, stack)
                done |= d
                s = s | e
                out |= e
            return out or s, done
        if isinstance(q, (ast.With,)):
            s = states
            for i in q.items:
                s = self.expr(f, i.context_expr, s, stack)
            return self.block(f, q.body, s, stack)
        if isinstance(q, ast.Try):
            a, d = self.block(f, q.body, states, stack)
            out = set(a)
            for h in q.handlers:
                e, d2 = self.block(f, h.body, states | a, stack)
                out |= e
                d |= d2
            o2, d2 = self.block(f, q.orelse, out, stack)
            o3, d3 = self.block(f, q.finalbody, o2, stack)
            return o3, d | d2 | d3
        return self.expr(f, q, states, stack), set()

    def expr(self, f, e, states, stack):
        s = f.params[0]
        for n in sorted((x for x in ast.walk(e) if isinstance(x, ast.Call)), key=lambda x: (x.end_lineno, x.end_col_offset)):
            fn = n.func
            if isinstance(fn, ast.Attribute) and lazy.self_attr(fn.value, s) == self.attr:
                if fn.attr in self.resets:
                    states = {0}
                elif fn.attr in self.memo:
                    if 2 in states:
                        self.exposed = True
                    states = {1 if x == 0 else x for x in states}
            else:
                m = lazy.self_attr(fn, s)
                g = self.repo.method(self.c, m) if m else None
                if g is not None and g.method and g.params:
                    keep = self.exposed
                    res, exp = self.method(g, stack)
                    self.exposed = keep or exp and 2 in states
                    states = set().union(*(res[x] for x in states)) if states else states
        return states


def memoising(repo, L, c):
    """methods of c that keep results depending on their arguments, directly or through others."""
    seen = {n: repo.method(c, n) for x in repo.mro(c) for n in x.methods}
    memo = {s.fn.name for s in L.class_sites(c) if s.unkeyed}
    parts = {}
    for x in repo.mro(c):
        for a, cs in x.attr_all.items():
            for q in cs:
                w = {s.fn.name for s in L.class_sites(q) if s.unkeyed}
                if w:
                    parts.setdefault(a, set()).update(w | {n for n in w})
    ch = True
    while ch:
        ch = False
        for n, f in seen.items():
            if n in memo or not f.method or not f.params:
                continue
            for q in ast.walk(f.node):
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute):
                    if lazy.self_attr(q.func, f.params[0]) in memo or lazy.self_attr(q.func.value, f.params[0]) in parts and q.func.attr in parts[lazy.self_attr(q.func.value, f.params[0])]:
                        memo.add(n)
                        ch = True
                        break
    return memo


def held(ctx, repo, L):
    ctx.rule('between calls', 'an object that manages the cached results of another one drops them between calls with different arguments')
    n = 0
    for m in repo.mods.values():
        for c in m.classes.values():
            attrs = {k: set().union(*(x.attr_all.get(k, set()) for x in repo.mro(c))) for x in repo.mro(c) for k in x.attr_all}
            for a, cs in sorted(attrs.items()):
                memo = set().union(*(memoising(repo, L, q) for q in cs)) if cs else set()
                resets = {r for q in cs for r in L.resets(q) if RESET_ALL(L, q, r)}
                if not memo or not resets:
                    continue
                fns = {}
                for x in repo.mro(c):
                    for k, f in x.methods.items():
                        fns.setdefault(k, f)
                uses = [f for f in fns.values() if f.method and f.params and any(
                    isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and lazy.self_attr(q.func.value, f.params[0]) == a and q.func.attr in resets for q in ast.walk(f.node))]
                if not uses or all(lazy.RESET.match(f.name) for f in uses):
                    continue
                U = Uses(repo, L, c, a, memo, resets)
                leaky, exposed = [], []
                pub = [f for k, f in sorted(fns.items()) if not k.startswith('_') and f.method and f.params and not lazy.RESET.match(k)]
                for f in pub:
                    res, exp = U.method(f)
                    if 1 in res[0]:
                        leaky.append(f)
                    if exp:
                        exposed.append(f)
                for f in pub:
                    if f.cls is not c:
                        continue
                    n += 1
                    lab = '%s.%s: self.%s' % (c.qual.split('.', 1)[1], f.name, a)
                    at = '%s:%d' % (f.mod.path, f.node.lineno)
                    if f in leaky and exposed:
                        ctx.bad('between calls', lab, 'leaves results of its arguments to %s' % ', '.join(x.name for x in exposed[:3]), at)
                    else:
                        ctx.ok('between calls', lab, 'results dropped' if f not in leaky else 'every user drops earlier results first', at)
    ctx.min_ok('between calls', 5)


def RESET_ALL(L, q, name):
    f = L.repo.method(q, name)
    a, b = L.dropped(q, f)
    g = set().union(*[s.guards for s in L.class_sites(q) if s.unkeyed] or [set()])
    return bool(a & g) or b


def separate(prof):
    """two components of one profile have their own state."""
    def rel(H):
        L = H.new(LM, lens_model_list=H.list([Const(prof), Const(prof)]))
        a, b = H.items(H.attr(H.attr(L, 'lens_model'), 'func_list'))
        return [(Const(a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)), Const(False))]
    return rel


def prepared(what, later):
    """an interpolated lens prepared for fixed tables equals one that is given them, and a fresh one after set_dynamic."""
    def rel(H):
        H.splines()
        C = 'lenstronomy.LensModel.Profiles.interpol:Interpol'
        names = ('f_', 'f_x', 'f_y', 'f_xx', 'f_yy', 'f_xy')

        def tables(t):
            return H.img(t + '.x', 2), H.img(t + '.y', 3), {n: H.img('%s.%s' % (t, n), 3, 2) for n in names}
        (x, y, f), (x2, y2, f2) = tables('a'), tables('b')
        p, q = H.num('p'), H.num('q')
        A, B = H.new(C), H.new(C)
        H.m(A, 'do_interp', x, y, **f)
        fl = lambda v: H.items(v) if what != 'function' else [v]
        out = list(zip(fl(H.m(A, what, p, q)), fl(H.m(B, what, p, q, grid_interp_x=x, grid_interp_y=y, **f))))
        if later:
            H.m(A, 'set_dynamic')
            out = list(zip(fl(H.m(A, what, p, q, grid_interp_x=x2, grid_interp_y=y2, **f2)), fl(H.m(H.new(C), what, p, q, grid_interp_x=x2, grid_interp_y=y2, **f2))))
        return out
    return rel


def run(ctx):
    ctx.explanation = (
        'Effects analysis of every function on containers of modules, classes and default arguments; dataflow analysis of every lazily kept attribute (which arguments and attributes it depends on, what drops it, '
        'and whether a user of the object drops it between calls); lens models of two equal components are constructed by the evaluator to see whether they share an object.')
    ctx.assumptions.append('a kept result is recognised by a test for the absence of an attribute (hasattr, is None) that stores it; names of reset methods are delete_*cache, set_dynamic, reset/clear_*cache')
    shared(ctx)
    repo = effects.analyse(effects.Repo(REPO))
    L = lazy.Lazy(repo)
    caches(ctx, repo, L)
    held(ctx, repo, L)
    names = lens_names(repo)
    ctx.need(len(names) > 60, 'registry of lens models')
    ctx.rule('instance', 'two components of a lens model never share an object that keeps state of its arguments')
    rels = []
    for n, c in sorted(names.items()):
        why = stateful(repo, L, c)
        if why and n != 'SYNTHESIS':  # built from constructor arguments, never shared without them
            rels.append(('instance', n, separate(n)))
    decide(ctx, rels, n=3)
    ctx.rule('static', 'an interpolated lens prepared for fixed tables gives the same results, and those of a fresh one when dynamic again')
    decide(ctx, [('static', 'INTERPOL %s%s' % (w, ' again' if l else ''), prepared(w, l)) for w in ('function', 'derivatives', 'hessian') for l in (False, True)], n=3, nd=True)
    ctx.min_ok('static', 4)
    ctx.min_ok('instance', 8)
