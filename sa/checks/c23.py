"""C23 the potential, deflection and Hessian of every lens profile describe one potential."""
import os
from ..engine import Bottom, Budget
from ..values import *
from .. import mlval
from .. import mlrun
from ..mlrun import MLRun, profile_eval
from ..mlpool import warm, pmap, Verdict, signature, T, F, I, U, NA, W, Z, SD
from ..lensprof import LensRunner

RELS = ('dpsi/dx = alpha_x', 'dpsi/dy = alpha_y', 'dalpha_x/dx = f_xx', 'dalpha_x/dy = f_xy', 'dalpha_y/dx = f_yx', 'dalpha_y/dy = f_yy')
SKIP = {'SYNTHESIS', 'TABULATED_DEFLECTIONS', 'LOS', 'LOS_MINIMAL', 'LOS_FLEXION', 'LOS_FLEXION_MINIMAL'}


STEPS = 50000 if not os.environ.get("C23_NOLIM") else 10**9       # interpreter steps spent on one batch of a search


def compare(M, u, i, v, k=0):
    """Taylor coefficient i of u against coefficient k of v."""
    if u is None or v is None or isinstance(u, mlval.Cx) or isinstance(v, mlval.Cx):
        return NA
    a, b = u.d(i), v.d(k)
    if a is not None and v.t == '<pole>':
        return I if (u.irr | v.irr) & 1 or M.run.infeasible else F
    if a is None or b is None:
        return U
    p = M.run.p[M.run.main]
    if (a - b) % p == 0:
        return T if a else Z
    irr = u.irr | v.irr
    return I if irr & 1 or M.run.infeasible else SD if irr else F


def value(M, q):
    if isinstance(q, Tup) and q.arr and len(q.items) == 2:
        q = q.items[0]
    return M.val(q)


def make(prog):
    def job(name, seed, main, fallback, kind, fast=False):
        with MLRun(prog, seed, main, fallback=fallback, drop=True) as M:
            M.run.fast = fast
            E = profile_eval(M, name)
            if kind == 't':
                x = Tup([M.num('x', 's', None, 1), M.num('second x', 's')], True)
                y = Tup([M.num('y', 's', None, 2), M.num('second y', 's')], True)
            else:
                x, y = M.num('x', kind, None, 1), M.num('y', kind, None, 2)
            vals = {}
            sigs = {}
            errs = {}
            weak = False
            for meth, n in (('function', 1), ('derivatives', 2), ('hessian', 4)):
                M.reset()
                kw = dict(E.kw)
                if 'f_xy' in kw and 'f_yx' in kw:
                    # a potential exists only for a symmetric matrix
                    kw['f_yx'] = kw['f_xy']
                try:
                    r = E.call(meth, [x, y], kw)
                except (Bottom, Budget) as e:
                    errs[meth] = str(e)[:120]
                    vals[meth] = [None] * n
                    continue
                items = [r] if n == 1 else (list(r.items) if isinstance(r, Tup) else [None] * n)
                vals[meth] = [value(M, q) for q in items] if len(items) == n else [None] * n
                sigs[meth] = signature(M.run)
                weak = weak or M.run.weak
                if M.run.infeasible:
                    for q in vals[meth]:
                        if isinstance(q, mlval.Val):
                            q.irr |= 1
            f, a, h = vals['function'], vals['derivatives'], vals['hessian']
            out = [compare(M, f[0], 1, a[0]), compare(M, f[0], 2, a[1]), compare(M, a[0], 1, h[0]), compare(M, a[0], 2, h[1]),
                   compare(M, a[1], 1, h[2]), compare(M, a[1], 2, h[3])]
            sg = {k: sigs.get(k, ()) for k in ('function', 'derivatives', 'hessian')}
            sig = [tuple(sorted(set(sg['function'] + sg['derivatives'])))] * 2 + [tuple(sorted(set(sg['derivatives'] + sg['hessian'])))] * 4
            if weak:
                out = [W if q in (F, SD) else q for q in out]
            return out, sig, errs, tuple('%s=%s' % (k, v.v) for k, v in sorted(E.kw.items()) if isinstance(v, Const))

    def batch(name, configs, fast=False):
        res = []
        steps = 0
        for c in configs:
            if fast and steps > STEPS:
                break
            E = mlrun._KEPT.get((id(prog), name))
            if E is not None:
                steps += E.it.budget0 - E.it.budget
            try:
                res.append((c, job(name, *c, fast=fast), None))
            except mlval.Unavailable:
                continue
            except Exception as e:      # noqa
                res.append((c, None, '%s: %s' % (type(e).__name__, str(e)[:160])))
        return res
    return job, batch


def first(tier, seed):
    """seeds x fields x mode."""
    o = 1000000 * (seed - 1)
    n = 8 if tier == 'quick' else 40
    return ([(s + o, m, False, 'a') for s in range(n) for m in 'PQK'] + [(s + o, m, True, 'a') for s in range(n // 2) for m in 'PK']
            + [(500 + s + o, m, False, 's') for s in range(n // 2) for m in 'PK'])


def searches(tier, seed):
    """random points for the profiles that need many roots: an evaluation is given up at the first missing root."""
    o = 1000000 * (seed - 1) + 10000
    for n, m in ((400, 'K'), (1200, 'K'), (600, 'P')) + (() if tier == 'quick' else ((20000, 'K'), (20000, 'P'))):
        yield [(s + o, m, False, 'as'[s % 2]) for s in range(n)]
        o += n


def run(ctx):
    ctx.explanation = (
        'Every lens profile is interpreted in a value-numbering domain (random evaluation over a chain of finite fields that interprets exp, log, powers, '
        'angles and special functions consistently, with truncated Taylor series in x and y); the Taylor coefficients of the potential must equal the deflection, '
        'those of the deflection the Hessian, on every trace the branch decisions lead to.')
    ctx.assumptions.append('regularisation constants of at most 1/500 that are added to a quantity are treated as formal infinitesimals')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.rule('gradient', 'deflection = gradient of the potential')
    ctx.rule('hessian', 'Hessian = Jacobian of the deflection')
    names = [n for n in LensRunner(ctx.prog).names() if n not in SKIP]
    ctx.need(len(names) > 60, 'list of supported lens profiles')
    only = os.environ.get('C23_ONLY')
    if only:
        names = only.split(',')
    res = {}
    by = {}         # outcomes per value of the discrete parameters
    errors = {}
    warm()
    job, batch = make(ctx.prog)

    def collect(todo, rnd, fast=False, size=6):
        alive = set()
        for _, rs, err in pmap(batch, [(nm, rnd[i:i + size], fast) for nm in todo for i in range(0, len(rnd), size)]):
            nm = _[0]
            if rs is None:
                errors.setdefault(nm, err)
                continue
            for (s, m, fb, kind), r, err in rs:
                if r is None:
                    errors.setdefault(nm, err)
                    continue
                out, sig, errs, var = r
                for k, rel in enumerate(RELS):
                    res.setdefault((nm, rel), Verdict()).add(out[k], sig[k] + tuple((v, ()) for v in var), 'seed %d field %s%s' % (s, m, ' uninterpreted' if fb else ''))
                    if out[k] != NA:
                        alive.add((nm, rel))
                        by.setdefault((nm, rel), {}).setdefault(var, []).append(out[k])
                for k, e in errs.items():
                    errors.setdefault(nm, e)
        return alive

    def wanting(nm):
        """some relation that can be represented has few non-trivial outcomes."""
        for rel in RELS:
            for v in by.get((nm, rel), {}).values():
                if sum(o in (T, F, SD) for o in v) < 4 and U in v:
                    return True
        return False

    alive = set()
    alive |= collect(names, first(ctx.tier, ctx.seed))
    for rnd in searches(ctx.tier, ctx.seed):
        todo = [nm for nm in names if wanting(nm)]
        if not todo:
            break
        alive |= collect(todo, rnd, True, 100)
    # a difference seen too rarely to be believed: look at the same profile in more interpretations
    todo = [nm for nm in names if any((nm, rel) in res and res[nm, rel].count(F) + res[nm, rel].count(SD) and res[nm, rel].status()[0] == 'undecided' for rel in RELS)]
    collect(todo, [(s, m, False, k) for s in range(2000, 2040) for m, k in (('P', 'a'), ('K', 'a'), ('P', 's'), ('K', 's'))])
    collect(todo, [(s, m, False, 'a') for s in range(3000, 3800) for m in 'PK'], True, 100)
    for nm in names:
        for rel in RELS:
            v = res.get((nm, rel))
            rule = 'gradient' if rel.startswith('dpsi') else 'hessian'
            if v is None:
                ctx.undecided(rule, '%s %s' % (nm, rel), errors.get(nm, ''))
                continue
            st, d = v.status()
            ctx.ob(rule, '%s %s' % (nm, rel), st, d + (' ' + errors[nm] if st == 'undecided' and nm in errors else ''))
    if not only:
        ctx.min_ok('gradient', 60)
        ctx.min_ok('hessian', 150)
