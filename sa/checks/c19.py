"""C19 every declared parameter takes effect."""
from .lenscommon import *
from .lightcommon import each_light

# quadratic (or linear) potentials: their Hessian / deflection is constant by construction
FLAT = {'CONVERGENCE', 'HESSIAN', 'SHEAR', 'SHEAR_GAMMA_PSI', 'SHEAR_REDUCED', 'CONST_MAG', 'SHIFT', 'BLANK_PLANE'}
EXCEPT = {('MULTIPOLE', 'hessian', 'r_E'), ('MULTIPOLE_ELL', 'hessian', 'r_E')}
EXCEPT |= {('SHIFT', 'function', p) for p in ('alpha_x', 'alpha_y')} | {('SHIFT', 'hessian', p) for p in ('alpha_x', 'alpha_y')}
EXCEPT |= {('DIPOLE', 'function', p) for p in ('com_x', 'com_y', 'phi_dipole', 'coupling')}   # potential of the dipole is not provided
GRIDS = {'INTERPOL', 'INTERPOL_SCALED'}    # each tabulated array feeds one derivative order only


def run(ctx):
    ctx.explanation = (
        'Dependency analysis (data and branch dependencies, over-approximated) of every registered lens and light profile: '
        'each declared parameter must be among the inputs that the potential, the deflection, the Hessian and the brightness depend on.')
    ctx.rule('lens-parameter-used', 'declared parameter reaches the potential / deflection / Hessian')
    ctx.rule('light-parameter-used', 'declared parameter reaches the brightness')
    R = LensRunner(ctx.prog)
    for r in each(ctx, R):
        if r.name in GRIDS or r.name.startswith('LOS'):
            continue
        for meth, kind, outs in outputs(r):
            if any(p is None for _, p in outs):
                ctx.undecided('lens-parameter-used', '%s.%s' % (r.name, meth), 'no numeric result')
                continue
            deps = set(r.conds.get((meth, kind), ()))
            for _, p in outs:
                deps |= p.deps
            for q in r.params:
                if (r.name, meth, q) in EXCEPT or r.name in FLAT and meth == 'hessian' and (base(q) in WX or base(q) in WY):
                    continue
                c = '%s.%s %s' % (r.name, meth, q)
                if "kwargs['%s']" % q in deps:
                    ctx.ok('lens-parameter-used', c)
                else:
                    ctx.bad('lens-parameter-used', c, 'with %s the result does not depend on %s' % (KIND[kind], q), where_of(r, meth))
    for r in each_light(ctx):
        for (meth, kind), outs in r.out.items():
            if any(p is None for _, p in outs):
                ctx.undecided('light-parameter-used', '%s.%s' % (r.name, meth), 'no numeric result')
                continue
            deps = set(r.conds.get((meth, kind), ()))
            for _, p in outs:
                deps |= p.deps
            for q in r.params:
                if q in ('n_max', 'n_scales', 'n_pixels'):
                    continue
                c = '%s.%s %s' % (r.name, meth, q)
                if "kwargs['%s']" % q in deps:
                    ctx.ok('light-parameter-used', c)
                else:
                    ctx.bad('light-parameter-used', c, 'with %s the brightness does not depend on %s' % (KIND[kind], q), r.where)
    ctx.min_ok('lens-parameter-used', 800)
    ctx.min_ok('light-parameter-used', 100)
