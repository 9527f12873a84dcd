"""C05 scale homogeneity of lensing quantities."""
from .lenscommon import *


def run(ctx):
    ctx.explanation = (
        'Abstract interpretation of every registered lens profile with a scale-grade domain: each value carries the exponent g with which '
        'it scales when all angles (coordinates and angular parameters) are multiplied by a common factor. Rule: potential 2, deflection 1, '
        'Hessian 0 on every branch, and no branch orders quantities of different exponent.')
    ctx.assumptions.append('angular dimension of each profile parameter is taken from the table in sa/lensprof.py (documented units)')
    ctx.assumptions.append('literals <= 2e-3 or >= 1e4 are numerical softening and carry no unit')
    ctx.rule('lens-scale', 'scale exponent of function/derivatives/hessian is 2/1/0')
    ctx.rule('scale-branch', 'no branch orders two quantities of different scale exponent')
    R = LensRunner(ctx.prog)
    for r in each(ctx, R):
        if r.name in FIXED_SCALE:
            ctx.notes.setdefault('normalised at a fixed angular scale (not covered)', []).append(r.name)
            continue
        for meth, kind, outs in outputs(r):
            for lab, p in outs:
                c = '%s.%s %s' % (r.name, meth, lab)
                if p is None:
                    ctx.undecided('lens-scale', c, 'no numeric result')
                    continue
                st, why = unit_ok(p.u[0], U_EXP[meth])
                ctx.ob('lens-scale', c, st, '%s: %s' % (KIND[kind], why) if why else '', where_of(r, meth))
        for (t, i, wh, q), b in r.compares.items():
            if t == 'u':
                ctx.bad('scale-branch', q, '%s (profile %s)' % (b, r.name), wh)
    ctx.min_ok('lens-scale', 200)
