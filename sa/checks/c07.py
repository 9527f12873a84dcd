"""C07 mirror symmetry of lens profiles."""
from .lenscommon import *


def run(ctx):
    ctx.explanation = (
        'Abstract interpretation of every registered lens profile with two mirror-parity components (reflection of the x axis, of the y axis); '
        'coordinates, centres, ellipticity/shear components and angles carry their transformation parity. Rule: potential even, deflection '
        'odd along its own axis, diagonal Hessian even, off-diagonal Hessian odd under each reflection; the two mixed derivatives agree.')
    ctx.assumptions.append('parity of each profile parameter is taken from the table in sa/lensprof.py')
    ctx.rule('lens-mirror', 'parities of function/derivatives/hessian outputs under x- and y-reflection')
    R = LensRunner(ctx.prog)
    for r in each(ctx, R):
        for meth, kind, outs in outputs(r):
            if len(outs) != ARITY[meth]:
                if any(p is None for _, p in outs):
                    ctx.undecided('lens-mirror', '%s.%s' % (r.name, meth), 'no numeric result')
                else:
                    ctx.bad('lens-mirror', '%s.%s' % (r.name, meth), 'returns %d components' % len(outs), where_of(r, meth))
                continue
            for i, (lab, p) in enumerate(outs):
                c = '%s.%s %s' % (r.name, meth, lab)
                if p is None:
                    ctx.undecided('lens-mirror', c, 'no numeric result')
                    continue
                for ax, q, want in zip('xy', p.p, P_EXP[(meth, i)]):
                    st, why = parity_ok(q, want)
                    ctx.ob('lens-mirror', c, st, '%s-reflection, %s: %s' % (ax, KIND[kind], why) if why else '', where_of(r, meth))
    ctx.min_ok('lens-mirror', 150)
