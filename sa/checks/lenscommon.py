"""Obligations on the grades of lens profile outputs, shared by C04, C05 and C07."""
from ..lenseval import run_profile, METHODS, NO_BUILD
from ..lensprof import LensRunner, WX, WY, base, FIXED_SCALE
from ..grades import Bad, Ang
from .. import poly

U_EXP = {'function': 2, 'derivatives': 1, 'hessian': 0}
ARITY = {'function': 1, 'derivatives': 2, 'hessian': 4}
P_EXP = {('function', 0): (0, 0), ('derivatives', 0): (1, 0), ('derivatives', 1): (0, 1),
         ('hessian', 0): (0, 0), ('hessian', 1): (1, 1), ('hessian', 2): (1, 1), ('hessian', 3): (0, 0)}
KIND = {'a': 'array coordinates', 's': 'scalar coordinates'}


def each(ctx, R):
    names = R.names()
    ctx.need(len(names) > 60, 'registry of lens models')
    n = 0
    for name in names:
        r = ctx.guard('profile', name, lambda: run_profile(R, name))
        if r is None:
            continue
        if 'build' in r.fail:
            if name not in NO_BUILD:
                ctx.undecided('profile', name, r.fail['build'])
            continue
        n += 1
        ctx.functions |= r.functions
        yield r
    ctx.need(n > 60, 'lens profiles that can be built')


def outputs(r):
    for (meth, kind), outs in r.out.items():
        yield meth, kind, outs


def where_of(r, meth):
    fn = r.cls.lookup(meth)[0]
    try:
        return '%s:%d %s.%s' % (fn.mod.path[fn.mod.path.find('lenstronomy/'):], fn.node.lineno, r.cls.name, meth)
    except Exception:
        return r.cls.name


def unit_ok(c, want):
    """'ok', 'bad' or 'undecided' for one scale exponent."""
    if isinstance(c, Bad):
        return 'bad', repr(c)
    if c == 'Z':
        return 'ok', 'identically zero'
    if isinstance(c, poly.Poly):
        if c == poly.const(want):
            return 'ok', ''
        return 'bad', 'scales with exponent %r, expected %s' % (c, want)
    return 'undecided', 'exponent not determined'


def weight_ok(c):
    if isinstance(c, Bad):
        return 'bad', repr(c)
    if isinstance(c, poly.Poly):
        if c == poly.ZERO:
            return 'ok', ''
        return 'bad', 'moves by %r times the shift of the frame' % (c,)
    return 'undecided', 'weight not determined'


def parity_ok(c, want):
    if isinstance(c, Bad):
        return 'bad', repr(c)
    if c == 'Z':
        return 'ok', 'identically zero'
    if c in (0, 1):
        return ('ok', '') if c == want else ('bad', 'has parity %s under the reflection, expected %s' % (
            'odd' if c else 'even', 'odd' if want else 'even'))
    return 'undecided', 'parity not determined'
