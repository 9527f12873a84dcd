"""C04 translation covariance of profiles with a centre."""
from .lenscommon import *


# flexion terms are by definition a Taylor expansion about the coordinate origin, not about the profile centre
NOT_COVARIANT = {'SERSIC_ELLIPSE_FLEXION'}


def has_centre(r):
    b = [base(p) for p in r.params]
    return any(p in WX for p in b) and any(p in WY for p in b)


def run(ctx):
    ctx.explanation = (
        'Abstract interpretation of every registered lens and light profile (array and scalar coordinate paths): each value carries its '
        'translation weight per axis (v -> v + w*t when the frame is shifted by t); coordinates and centre parameters have weight 1. '
        'Rule: every returned component has weight 0 on both axes, on all branches.')
    ctx.assumptions.append('numpy/scipy functions act elementwise as documented; finite-difference and tabulated pieces are left undecided')
    ctx.rule('lens-shift', 'weights of function/derivatives/hessian outputs are 0 on both axes')
    ctx.rule('light-shift', 'weights of light profile outputs are 0 on both axes')
    ctx.rule('shift-branch', 'no branch compares an absolute position with a translation-invariant quantity')
    R = LensRunner(ctx.prog)
    for r in each(ctx, R):
        if not has_centre(r):
            ctx.notes.setdefault('profiles without centre', []).append(r.name)
            continue
        for meth, kind, outs in outputs(r):
            for lab, p in outs:
                c = '%s.%s %s' % (r.name, meth, lab)
                if p is None:
                    ctx.undecided('lens-shift', c, 'no numeric result')
                    continue
                for ax, w in zip('xy', p.w):
                    st, why = weight_ok(w)
                    ctx.ob('lens-shift', c, st, '%s-shift, %s: %s' % (ax, KIND[kind], why) if why else '', where_of(r, meth))
        for (t, i, wh, q), b in r.compares.items():
            if t == 'w':
                ctx.bad('shift-branch', q, '%s (profile %s)' % (b, r.name), wh)
    from .lightcommon import each_light, has_centre_light
    for r in each_light(ctx):
        if r.name in NOT_COVARIANT:
            ctx.notes.setdefault('exempt: expansion about the coordinate origin', []).append(r.name)
            continue
        if not has_centre_light(r):
            ctx.notes.setdefault('light profiles without centre', []).append(r.name)
            continue
        for (meth, kind), outs in r.out.items():
            for lab, p in outs:
                c = '%s.%s %s' % (r.name, meth, lab)
                if p is None:
                    ctx.undecided('light-shift', c, 'no numeric result')
                    continue
                for ax, w in zip('xy', p.w):
                    st, why = weight_ok(w)
                    ctx.ob('light-shift', c, st, '%s-shift, %s: %s' % (ax, KIND[kind], why) if why else '', r.where)
        for (t, i, wh, q), b in r.compares.items():
            if t == 'w':
                ctx.bad('shift-branch', q, '%s (light profile %s)' % (b, r.name), wh)
    ctx.min_ok('lens-shift', 150)
    ctx.min_ok('light-shift', 15)
