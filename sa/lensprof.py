"""Abstract evaluation of every registered lens profile."""
from .engine import Program, Interp, Frame, Bottom, Budget
from .values import *
from .grades import Domain, G, Bad, Ang
from . import poly

C = poly.const

ANG1 = set("""center_x center_y ra_0 dec_0 com_x com_y theta_E Rs alpha_Rs r_core r_trunc R_sersic Ra s_scale theta_c
w_c w_t w_c1 w_t1 w_c2 w_t2 w_c3 w_t3 sigma sigma_x sigma_y beta a_m r_E alpha_x alpha_y alpha_1 b r_c s d_r
grid_interp_x grid_interp_y f_x f_y r_bin r_s""".split())
ANGM1 = set("curvature dtan_dtan F1 F2 G1 G2 g1 g2 g3 g4".split())
SPECIAL = {  # (profile, param) -> exponent
    ('GAUSSIAN', 'amp'): 2, ('GAUSSIAN_ELLIPSE_KAPPA', 'amp'): 2, ('GAUSSIAN_ELLIPSE_POTENTIAL', 'amp'): 2,
    ('MULTI_GAUSSIAN', 'amp'): 2, ('MULTI_GAUSSIAN_ELLIPSE_KAPPA', 'amp'): 2,
    ('MULTI_GAUSSIAN_ELLIPSE_POTENTIAL', 'amp'): 2, ('GAUSSIAN_POTENTIAL', 'amp'): 4,
    ('CSE', 'a'): 3, ('ElliSLICE', 'a'): 1, ('BPL', 'a'): 0, ('BPL', 'a_c'): 0,
    ('INTERPOL', 'f_'): 2, ('INTERPOL_SCALED', 'f_'): 2, ('CTNFW_GAUSS_DEC', 'a'): 0,
    ('HESSIAN', 'f_x'): 0, ('CTNFW_GAUSS_DEC', 'rho_s'): -1, ('GreenBoschNFW', 'rho0ang'): -1,
    ('ARC_PERT', 'coeff'): 2, ('SHAPELETS_CART', 'coeffs'): 3, ('SHAPELETS_POLAR', 'coeffs'): 3,
    ('DIPOLE', 'coupling'): 1, ('POINT_MASS_LOG_SCALED', 'log10_theta_E'): 'T',
}
XODD = set("a1_a a3_a center_x ra_0 com_x alpha_x grid_interp_x f_x g1 g3".split())
YODD = set("center_y dec_0 com_y alpha_y grid_interp_y f_y g2 g4".split())
BOTH = set("e2 e21 e22 e23 gamma2 f_xy f_yx".split())
ANGLES2 = set("phi phi_G psi psi_ext delta_phi_m1 delta_phi_m3 delta_phi_m4".split())  # spin-2 / relative angles
ANGLES1 = set("direction phi_m varphi_m phi_ref phi_dipole".split())
WX = set("center_x ra_0 com_x grid_interp_x".split())
WY = set("center_y dec_0 com_y grid_interp_y".split())
UNKNOWN_PAR = set("coeff coeffs f_ f_xx f_yy".split())
ARRAYS = set("amp sigma coeffs grid_interp_x grid_interp_y f_ f_x f_y f_xx f_yy f_xy r_bin kappa_r".split())


def base(n):
    for suf in ('_od', '_os', '_ds', '_los', '_1ds', '_2ds', '_1los'):
        if n.endswith(suf):
            return n[:-len(suf)]
    return n


# normalised at a fixed angular scale (deflection at one arcsecond): no common-scale covariance to expect
FIXED_SCALE = {'CHAMELEON', 'DOUBLE_CHAMELEON', 'DOUBLE_CHAMELEON_POINT_MASS', 'TRIPLE_CHAMELEON', 'NFW_MC',
               'NFW_MC_ELLIPSE_POTENTIAL'}


def unit_of(prof, n):
    if (prof, n) in SPECIAL:
        return SPECIAL[(prof, n)]
    b = base(n)
    if b in ANG1:
        return 1
    if b in ANGM1:
        return -1
    return 0


def parity_of(n):
    b = base(n)
    if b in XODD or b in ('F1', 'G1'):
        return (1, 0)
    if b in YODD or b in ('F2', 'G2'):
        return (0, 1)
    if b in BOTH or b == 'omega':
        return (1, 1)
    if b in ANGLES2:
        return (1, 1)
    if b in ANGLES1:
        return (Ang(1), 1)
    if b in UNKNOWN_PAR:
        return ('T', 'T')
    return (0, 0)


class LensRunner:
    def __init__(self, prog, budget=600000):
        self.prog = prog
        self.D = Domain(bases=('ang',), parities=2, weights=2)
        self.budget = budget

    def interp(self):
        self.D.steps = {}
        it = Interp(self.prog, self.D, self.budget)
        m = it.load('lenstronomy.LensModel.lens_model')
        it.frames = [Frame(None, m, None, None)]
        return it

    def names(self):
        it = self.interp()
        m = it.load('lenstronomy.LensModel.profile_list_base')
        v = m.globals.get('_SUPPORTED_MODELS')
        if not isinstance(v, Ref):
            raise RuntimeError('registry of lens models not found')
        return [x.v for x in it.hget(State({}, self.prog.static_heap), v).items]

    def build(self, it, S, names, **kw):
        c = it.load('lenstronomy.LensModel.lens_model').globals['LensModel']
        k = {'lens_model_list': it.new_list(S, [Const(n) for n in names])}
        k.update(kw)
        return it.instantiate(c, [], k, S, None)

    def coord(self, axis, own=True):
        D = self.D
        p = (1, 0) if axis == 'x' else (0, 1)
        w = (poly.ONE, poly.ZERO) if axis == 'x' else (poly.ZERO, poly.ONE)
        return Num(D.mk(u=(C(1),), p=p, w=w, deps=frozenset([axis])), frozenset([axis]) if own else EMPTY, 'a')

    def param(self, prof, n, own=True, haspos=True, tag=''):
        D = self.D
        b = base(n)
        w = [poly.ZERO, poly.ZERO]
        if b in WX:
            w[0] = poly.ONE
        if b in WY:
            w[1] = poly.ONE
        kind = '?' if n in ARRAYS else 's'
        if n in ('amp', 'sigma') and not prof.startswith('MULTI'):
            kind = 's'
        sym = poly.symbol(tag + n) if kind == 's' and b not in WX and b not in WY else None
        lab = "%skwargs['%s']" % (tag, n)
        return Num(D.mk(u=(C(unit_of(prof, n)) if unit_of(prof, n) != 'T' else 'T',), p=parity_of(n), w=w, sym=sym, deps=frozenset([lab])),
                   frozenset([lab]) if own and kind != 's' else EMPTY, kind)

    def kwargs(self, it, S, prof, names, tag=''):
        return it.new_dict(S, {n: self.param(prof, n, tag=tag) for n in names}, own=frozenset([tag + 'kwargs dict']))

    def func_obj(self, it, S, lm):
        h = it.hget(S, it.hget(S, lm).items['lens_model'])
        fl = it.hget(S, h.items['func_list'])
        return fl.items[0]

    def param_names(self, it, S, fo):
        pn = it.getattr(fo, 'param_names', S, None)
        items, summ = it.iterate(pn, S, None)
        return [x.v for x in items] if items is not None else None
