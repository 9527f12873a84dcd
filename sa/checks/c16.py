"""C16 physical and angular quantities of a lens and source in a cosmology."""
import ast
import math
from ..values import *
from ..engine import Bottom
from ..mlrel import decide

LC = 'lenstronomy.Cosmo.lens_cosmo:LensCosmo'
BG = 'lenstronomy.Cosmo.background:Background'
NP_ = 'lenstronomy.Cosmo.nfw_param:NFWParam'
GP = 'lenstronomy.Cosmo.gnfw_param:GNFWParam'
CS = 'lenstronomy.Cosmo.cosmo_solver:'
ML = 'lenstronomy.Cosmo.micro_lensing:'
GC = 'lenstronomy.GalKin.cosmo:Cosmo'
TD = 'lenstronomy.Analysis.td_cosmography:TDCosmography'
MA = 'lenstronomy.SimulationAPI.model_api:ModelAPI'
CI = 'lenstronomy.Cosmo.cosmo_interp:CosmoInterp'
C = 'lenstronomy.Util.constants:'


UNITS = ('c', 'G', 'Mpc', 'M_sun', 'day_s', 'arcsec', 'pc', 'r_sun')


def unknown_units(H):
    """physical constants become unknowns wherever they are bound, so that no rounding of constant factors enters a comparison."""
    H.splines()
    mods = H.it.prog.mods
    H.it.load(C[:-1])
    src = mods[C[:-1]].globals
    seen = H.it.prog.__dict__.setdefault('units', {})
    for n in UNITS:
        seen.setdefault(id(src[n]), (n, src[n]))
    new = {n: H.num('unit.' + n, True) for n in UNITS}
    for m in list(mods.values()):
        for k, v in list(m.globals.items() if m is not None else ()):
            if id(v) in seen and seen[id(v)][1] is v:
                m.globals[k] = new[seen[id(v)][0]]
    for n in UNITS:
        seen[id(new[n])] = (n, new[n])


def unknown_profile(H):
    """deflection normalisation of the generalised NFW profile: scale radius times an unknown function of the slope (numerical in the library)."""
    m = H.it.load('lenstronomy.LensModel.Profiles.gnfw')
    m.globals.setdefault('GNFW.original', m.globals['GNFW'])
    old = (m.globals['GNFW.original'], m.globals['GNFW'])
    new = H.native(lambda a, k: H.stub({'get_alpha_Rs_for_kappa_s_1': H.native(lambda a, k: H.mul(a[0] if a else k['Rs'], H.fn('A', a[1] if len(a) > 1 else k['gamma_in'], positive=True)))}, 'GNFW'))
    for q in list(H.it.prog.mods.values()):
        for k, v in list(q.globals.items() if q is not None else ()):
            if k != 'GNFW.original' and any(v is o for o in old):
                q.globals[k] = new


class World:
    """an unknown flat cosmology with unknown lens and source redshift."""

    def __init__(self, H, tag='chi', z=None):
        self.H = H
        H.it.load('lenstronomy.Cosmo.lens_cosmo')
        unknown_units(H)
        unknown_profile(H)
        self.zl, self.zs = z or (H.num('z_lens', True), H.num('z_source', True))
        self.h100 = H.num(tag + '.H0', True)
        efunc = H.native(lambda a, k: H.fn(tag + '.E', a[0], positive=True))
        self.cosmo = H.cosmology(tag, H=H.native(lambda a, k: H.stub({'value': self.h100}, 'Quantity')), H0=H.stub({'value': self.h100}, 'Quantity'), efunc=efunc)
        self.L = H.new(LC, z_lens=self.zl, z_source=self.zs, cosmo=self.cosmo)
        self.D = {k: H.attr(self.L, k) for k in ('dd', 'ds', 'dds')}

    def const(self, n):
        return self.H.get(C + n)

    def crit(self):
        """c^2 / (4 pi G) Ds / (Dd Dds) in solar masses per square Mpc."""
        H, c = self.H, self.const
        q = H.op('/', H.mul(c('c'), c('c')), H.mul(4, H.pi, c('G')))
        return H.mul(q, H.op('/', c('Mpc'), c('M_sun')), H.op('/', self.D['ds'], H.mul(self.D['dd'], self.D['dds'])))

    def length(self, angle):
        """Mpc in the lens plane."""
        return self.H.mul(angle, self.const('arcsec'), self.D['dd'])


def pos(H, *names):
    return [H.num(n, True) for n in names]


def inverse(f, g, names, keep=(), fixed=()):
    """g(f(x)) = x; `fixed` are arguments both take unchanged."""
    def rel(H):
        W = World(H)
        x, e = pos(H, *names), pos(H, *fixed)
        y = H.m(W.L, f, *(x + e))
        y = H.items(y) if len(names) > 1 else [y]
        z = H.m(W.L, g, *(y + e))
        return list(zip(H.items(z) if len(names) > 1 else [z], x))
    return rel


def distances(H):
    W = World(H)
    B = H.attr(W.L, 'background')
    one = lambda z: H.op('+', 1, z)
    chi = lambda z: H.mul(one(z), H.m(B, 'd_xy', 0, z))
    dd, ds, dds = (W.D[k] for k in ('dd', 'ds', 'dds'))
    ddt = H.op('/', H.mul(one(W.zl), dd, ds), dds)
    z2 = H.num('z2', True)
    C2 = H.new(LC, z_lens=W.zl, z_source=z2, cosmo=W.cosmo)
    scale = H.op('/', H.attr(C2, 'ddt'), ddt)
    beta = H.op('/', H.mul(dds, H.attr(C2, 'ds')), H.mul(ds, H.attr(C2, 'dds')))
    return [(dds, H.op('/', H.op('-', chi(W.zs), chi(W.zl)), one(W.zs))), (H.attr(W.L, 'ddt'), ddt), (H.m(B, 'ddt', W.zl, W.zs), ddt), (H.m(B, 'T_xy', W.zl, W.zs), H.mul(dds, one(W.zs))),
            (H.mul(H.m(B, 'a_z', W.zl), one(W.zl)), Const(1)), (H.m(B, 'ddt_scaling', W.zl, W.zs, z2), scale), (H.m(B, 'beta_double_source_plane', W.zl, W.zs, z2), beta), (H.m(W.L, 'beta_double_source_plane', W.zl, W.zs, z2), beta)]


def same_plane(H):
    W = World(H)
    B = H.attr(W.L, 'background')
    return [(H.m(B, 'ddt_scaling', W.zl, W.zs, W.zs), Const(1)), (H.m(B, 'beta_double_source_plane', W.zl, W.zs, W.zs), Const(1))]


def densities(H):
    """critical surface density per area and per square arcsecond, read in either order."""
    W = World(H)
    V = H.new(LC, z_lens=W.zl, z_source=W.zs, cosmo=W.cosmo)
    s = W.crit()
    k, t = pos(H, 'kappa', 'theta_E')
    arc = W.length(Const(1))
    sq = H.mul(s, arc, arc)
    R = W.length(t)
    return [(H.attr(W.L, 'sigma_crit'), s), (H.attr(W.L, 'sigma_crit_angle'), sq), (H.attr(V, 'sigma_crit_angle'), sq), (H.attr(V, 'sigma_crit'), s), (H.m(W.L, 'kappa2proj_mass', k), H.mul(k, s)),
            (H.m(W.L, 'mass_in_theta_E', t), H.mul(H.pi, R, R, s))]


def fold(e, env):
    """value of a constant expression of the module, None otherwise."""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
        return float(e.value)
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.Attribute) and e.attr == 'pi':
        return math.pi
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = fold(e.operand, env)
        return None if v is None else -v
    if isinstance(e, ast.BinOp) and type(e.op) in FOLD:
        a, b = fold(e.left, env), fold(e.right, env)
        return None if a is None or b is None else FOLD[type(e.op)](a, b)
    return None


FOLD = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a ** b}


def units(H):
    """the units are multiples of one another (constant expressions of the module)."""
    v = {}
    for st in H.it.prog.get(C[:-1]).tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            x = fold(st.value, v)
            if x is not None:
                v[st.targets[0].id] = x
    if any(n not in v for n in ('Mpc', 'kpc', 'pc', 'day_s', 'arcsec')):
        raise Bottom('constants not tracked')
    near = lambda a, b: (Const(abs(a / b - 1) < 1e-12), Const(True))
    return [near(v['kpc'] * 1e3, v['Mpc']), near(v['pc'] * 1e6, v['Mpc']), near(v['day_s'], 86400.), near(v['arcsec'] * 180 * 3600, math.pi)]


def dynamics(H):
    """the same for the distances of the kinematics."""
    W = World(H)
    W.D = {k: H.num(k, True) for k in W.D}
    G = H.new(GC, W.D['dd'], W.D['ds'], W.D['dds'])
    t = H.num('t', True)
    return [(H.attr(G, 'epsilon_crit'), W.crit()), (H.m(G, 'arcsec2phys_lens', t), W.length(t))]


def lengths(H):
    W = World(H)
    t = H.num('t', True)
    return [(H.m(W.L, 'arcsec2phys_lens', t), W.length(t)), (H.m(W.L, 'arcsec2phys_source', t), H.mul(t, W.const('arcsec'), W.D['ds'])), (H.m(W.L, 'phys2arcsec_lens', W.length(t)), t)]


def delays(H):
    """a delay is D_dt / c times the Fermat potential; an external convergence rescales D_dt."""
    W = World(H)
    f, k = H.num('fermat'), H.num('kappa')
    ddt = H.attr(W.L, 'ddt')
    t = H.mul(ddt, H.op('/', W.const('Mpc'), W.const('c')), f, H.op('/', H.mul(W.const('arcsec'), W.const('arcsec')), W.const('day_s')))
    U = H.get('lenstronomy.Util.constants:delay_arcsec2days')
    T = H.get(TD)
    call = lambda n, *a, **kw: H.call(H.it.getattr(T, n, H.S, None), *a, **kw)
    return [(H.m(W.L, 'time_delay_units', f), t), (H.m(W.L, 'time_delay_units', f, kappa_ext=k), H.mul(H.op('-', 1, k), t)), (H.m(W.L, 'time_delay2fermat_pot', t), f), (H.call(U, f, ddt), t),
            (call('ddt_from_time_delay', f, t), ddt)]


def sky_factors(H):
    """distances inferred behind external convergences: D_dt scales with (1-k_ds)/((1-k_s)(1-k_d)), Ds/Dds with (1-k_ds)/(1-k_s)."""
    W = World(H)
    f, t, s, J = pos(H, 'fermat', 't', 'sigma', 'J')
    ks, kds, kd = H.num('ks'), H.num('kds'), H.num('kd')
    T = H.get(TD)
    call = lambda n, *a, **kw: H.call(H.it.getattr(T, n, H.S, None), *a, **kw)
    r = H.op('/', H.op('-', 1, kds), H.op('-', 1, ks))
    a, b = call('ddt_from_time_delay', f, t), call('ds_dds_from_kinematics', s, J)
    v = H.op('/', H.mul(s, 1000), W.const('c'))
    a2, b2 = H.op('/', H.mul(a, r), H.op('-', 1, kd)), H.mul(b, r)
    O = H.stub({'_z_lens': W.zl, 'ddt_from_time_delay': H.native(lambda a, k: call('ddt_from_time_delay', *a, **k)), 'ds_dds_from_kinematics': H.native(lambda a, k: call('ds_dds_from_kinematics', *a, **k))}, 'TDCosmography')
    x, y = H.items(H.call(H.it.getattr(T, 'ddt_dd_from_time_delay_and_kinematics', H.S, None), O, f, t, s, J, kappa_s=ks, kappa_ds=kds, kappa_d=kd))
    return [(b, H.op('/', H.mul(v, v), J)), (call('ddt_from_time_delay', f, t, kappa_s=ks, kappa_ds=kds, kappa_d=kd), a2), (call('ds_dds_from_kinematics', s, J, kappa_s=ks, kappa_ds=kds), b2),
            (x, a2), (y, H.op('/', a2, H.mul(b2, H.op('+', 1, W.zl))))]


def isothermal(H):
    """an isothermal sphere: theta_E = 4 pi (sigma / c)^2 Dds / Ds."""
    W = World(H)
    s = H.num('sigma', True)
    v = H.op('/', H.mul(s, 1000), W.const('c'))
    t = H.op('/', H.mul(4, H.pi, v, v, H.op('/', W.D['dds'], W.D['ds'])), W.const('arcsec'))
    return [(H.m(W.L, 'sis_sigma_v2theta_E', s), t), (H.m(W.L, 'sis_theta_E2sigma_v', t), s)]


def truncated(H):
    """dual pseudo-isothermal: its central density is that of two isothermal cores of the same velocity dispersion."""
    W = World(H)
    s, a, b = pos(H, 'sigma', 'Ra', 'Rs')
    t = H.m(W.L, 'sis_sigma_v2theta_E', s)
    return [(H.m(W.L, 'vel_disp_dPIED_sigma0', s, a, b), H.mul(.5, t, H.op('-', H.op('/', 1, a), H.op('/', 1, b))))]


def halo(cls, extra=()):
    """density contrast: the mean density within r200 is 200 times critical; the profile with its concentration has that mass."""
    def rel(H):
        W = World(H)
        P = H.attr(W.L, 'nfw_param' if cls is NP_ else 'gnfw_param')
        M, c, z = pos(H, 'M', 'c', 'z')
        e = pos(H, *extra)
        r = H.m(P, 'r200_M', M, z)
        rho = H.m(P, 'rhoc_z', z)
        E = H.fn('chi.E', z, positive=True)
        rho0 = H.m(P, 'rho0_c', c, z, *e)
        out = [(rho, H.mul(H.attr(P, 'rhoc'), E, E)), (H.m(P, 'M_r200', r, z), M), (H.mul(4, H.pi, r, r, r, rho, 200), H.mul(3, M)), (H.m(P, 'M200', H.op('/', r, c), rho0, c, *e), M)]
        q = H.items(H.m(P, 'nfw_Mz' if cls is NP_ else 'gnfw_Mz', M, z, *e))
        c = H.m(P, 'c_M_z', M, z)
        return out + list(zip(q, (r, H.m(P, 'rho0_c', c, z, *e), c, H.op('/', r, c))))
    return rel


def generalised(H):
    """the generalised halo with inner slope one is the halo."""
    W = World(H)
    N, G = H.attr(W.L, 'nfw_param'), H.attr(W.L, 'gnfw_param')
    M, z = pos(H, 'M', 'z')
    return [(H.m(G, n, *a), H.m(N, n, *a)) for n, a in (('rhoc_z', (z,)), ('r200_M', (M, z)), ('M_r200', (M, z)), ('c_M_z', (M, z)))]


def concentration(cls, extra=()):
    """the concentration of a density does not depend on densities, redshifts and slopes asked before."""
    def rel(H):
        W = World(H)
        n = 'nfw_param' if cls is NP_ else 'gnfw_param'
        P, Q, K = [H.attr(w.L, n) for w in (W, World(H), World(H))]
        r1, r2, z1, z2 = pos(H, 'rho1', 'rho2', 'z1', 'z2')
        if extra:
            for w in (P, Q, K):
                H.it.setattr(w, 'rho0_c', H.native(lambda a, k: H.each(lambda *v: H.fn('rho0', *v), *(list(a) + [k[q] for q in ('c', 'z', 'gamma_in') if q in k]))), H.S, None)
        a, b = ([], []) if not extra else (pos(H, 'g1'), pos(H, 'g2'))
        H.m(P, 'c_rho0', r1, z1, *a)
        out = [(H.m(P, 'c_rho0', r2, z2, *b), H.m(Q, 'c_rho0', r2, z2, *b))]
        return out + [(H.m(P, 'c_rho0', r1, z1, *a), H.m(K, 'c_rho0', r1, z1, *a))]
    return rel


def physical(kind, before=False):
    """mass and concentration <-> scale radius and deflection on the sky."""
    def rel(H):
        W = World(H)
        e = pos(H, 'gamma_in') if kind == 'gnfw' else []
        M, c = pos(H, 'M', 'c')
        n = kind + '_param'
        P = H.attr(W.L, n)
        h = H.op('/', W.h100, 100)
        H.it.setattr(P, 'c_rho0', H.native(lambda a, k: H.fn('C', *([a[0], a[1] if len(a) > 1 else k['z']] + list(a[2:]) + [k[q] for q in ('gamma_in',) if q in k]), positive=True)), H.S, None)
        if before:
            H.m(W.L, kind + '_physical2angle', *(pos(H, 'M_', 'c_') + e))
        rho0, Rs, r200 = H.items(H.m(W.L, kind + 'Param_physical', M, c, *e))
        out = [(rho0, H.mul(H.m(P, 'rho0_c', c, W.zl, *e), h, h)), (H.mul(Rs, c), r200), (H.mul(r200, h), H.m(P, 'r200_M', H.mul(M, h), W.zl)), (W.length(H.m(W.L, kind + '_M_theta_r200', M)), r200)]
        R, a = H.items(H.m(W.L, kind + '_physical2angle', M, c, *e))
        out.append((W.length(R), Rs))
        # deflection at the scale radius of a halo of that density
        if kind == 'nfw':
            one = H.m(H.new('lenstronomy.LensModel.Profiles.nfw:NFW'), 'rho02alpha', Const(1), Const(1))
            out.append((H.mul(a, W.crit(), W.length(Const(1))), H.mul(rho0, Rs, Rs, one)))
        g = H.items(H.m(W.L, kind + '_angle2physical', R, a, *e))
        cc = H.fn('C', *([H.op('/', rho0, H.mul(h, h)), W.zl] + e), positive=True)
        r2 = H.mul(cc, Rs)
        return out + list(zip(g, (rho0, Rs, cc, r2, H.op('/', H.m(P, 'M_r200', H.mul(r2, h), W.zl), h))))
    return rel


def gnfw_norm(H):
    """the generalised halo at inner slope one uses the deflection normalisation of its own profile."""
    W = World(H)
    M, c, g = pos(H, 'M', 'c', 'gamma_in')
    R, a = H.items(H.m(W.L, 'gnfw_physical2angle', M, c, g))
    rho0, Rs, _ = H.items(H.m(W.L, 'gnfwParam_physical', M, c, g))
    k = H.mul(R, H.fn('A', g, positive=True))
    # kappa_s = rho0 Rs / Sigma_crit
    return [(a, H.mul(k, H.op('/', H.mul(rho0, Rs), W.crit())))]


def stars(H):
    """a Sersic profile of convergence k_eff holds the stellar mass k_eff Sigma_crit times its unit flux."""
    W = World(H)
    m, R, n = pos(H, 'm', 'R', 'n')
    U = H.new('lenstronomy.LensModel.Profiles.sersic_utils:SersicUtil')
    f = H.m(U, 'total_flux', amp=1, R_sersic=R, n_sersic=n)
    return [(H.m(W.L, 'sersic_k_eff2m_star', m, R, n), H.mul(m, f, H.attr(W.L, 'sigma_crit_angle'))), (H.m(W.L, 'sersic_k_eff2m_star', H.m(W.L, 'sersic_m_star2k_eff', m, R, n), R, n), m)]


def hernquist(H):
    """total mass 2 pi rho rs^3, convergence scale rho rs / Sigma_crit."""
    W = World(H)
    m, r = pos(H, 'm', 'rs')
    s, a = H.items(H.m(W.L, 'hernquist_phys2angular', m, r))
    return [(W.length(a), r), (H.mul(s, W.crit(), 2, H.pi, r, r), m)]


def micro(H):
    """Einstein radius of a point mass: the mass is pi theta^2 Dl^2 Sigma_crit."""
    unknown_units(H)
    m, a, b = pos(H, 'm', 'dl', 'dls')
    d = H.op('+', a, b)
    c = lambda n: H.get(C + n)
    t = H.mul(H.call(ML + 'einstein_radius', m, a, d), c('arcsec'))
    dia = H.num('dia', True)
    return [(H.mul(t, t, c('c'), c('c'), d, a, c('pc')), H.mul(4, c('G'), m, c('M_sun'), b)), (H.mul(H.call(ML + 'source_size', dia, d), c('arcsec'), d, c('pc')), H.mul(2, dia, c('r_sun')))]


def scaling(same):
    """Einstein radius of a power law for another source, and of a lens with external convergence."""
    def rel(H):
        W = World(H)
        t, k = H.num('t', True), H.num('k', True)
        H.M.run.below_one.add('k')
        n = Const(2)
        z2 = W.zs if same else H.num('z2', True)
        got = H.m(W.L, 'theta_E_power_law_scaling', t, k, n, W.zl, W.zs, z2)
        if same:
            return [(H.mul(got, H.op('-', 1, k)), t)]
        b = H.m(W.L, 'beta_double_source_plane', z_lens=W.zl, z_source_1=z2, z_source_2=W.zs)
        return [(H.mul(got, H.op('-', 1, H.mul(k, b))), H.mul(t, b))]
    return rel


def hubble(H):
    W = World(H)
    d = H.num('ddt', True)
    return [(H.mul(H.call(CS + 'ddt2h0', d, W.zl, W.zs, W.cosmo), d), H.mul(W.h100, H.attr(W.L, 'ddt')))]


def coin(H):
    """mass in the cone through the Einstein ring in front of the source: a third of base area at the lens times height times the mean density."""
    W = World(H)
    t = H.num('t', True)
    B = H.attr(W.L, 'background')
    chi = lambda z: H.m(B, 'T_xy', 0, z)
    r = H.mul(chi(W.zl), t, W.const('arcsec'))
    return [(H.mul(3, H.m(W.L, 'mass_in_coin', t)), H.mul(H.pi, r, r, chi(W.zs), H.attr(B, 'rho_crit')))]


def critical(H):
    """critical density: 3 H^2 / (8 pi G) today; at other redshifts with E(z)^2."""
    W = World(H)
    B = H.attr(W.L, 'background')
    h = H.op('/', W.h100, 100)
    z = H.num('z', True)
    E = H.fn('chi.E', z, positive=True)
    return [(H.attr(W.L, 'h'), h), (H.mul(8, H.pi, W.const('G'), H.attr(B, 'rho_crit'), W.const('M_sun')), H.mul(3, W.h100, W.h100, 1000000, W.const('Mpc'))),
            (H.m(B, 'rho_crit_z', z), H.mul(H.attr(B, 'rhoc'), E, E, h, h))]


def simulated(H):
    """physical halo parameters of a model are converted with the redshift of that component."""
    W = World(H)
    z = [H.num('za', True), H.num('zb', True), H.num('zc', True)]
    M, c, s = pos(H, 'M', 'c', 'sigma')
    K = H.list([H.dict(M200=M, concentration=c, center_x=H.num('x0')), H.dict(sigma_v=s, e1=H.num('e1')), H.dict(gamma1=H.num('g'))])
    out = []
    f = H.it.getattr(H.get(MA), 'physical2lensing_conversion', H.S, None)
    for zl in (None, z):
        O = H.stub({'_lens_redshift_list': Const(None) if zl is None else H.list(zl), '_z_lens': W.zl, '_z_source_convention': W.zs, '_cosmo': W.cosmo}, 'ModelAPI')
        a, b, e = H.items(H.call(f, O, K))
        L = lambda i: W.L if zl is None else H.new(LC, zl[i], W.zs, cosmo=W.cosmo)
        R, al = H.items(H.m(L(0), 'nfw_physical2angle', M, c))
        out += [(H.m(a, 'get', 'Rs'), R), (H.m(a, 'get', 'alpha_Rs'), al), (H.m(a, 'get', 'center_x'), H.num('x0')), (H.m(b, 'get', 'theta_E'), H.m(L(1), 'sis_sigma_v2theta_E', s)), (H.m(b, 'get', 'e1'), H.num('e1')),
                (H.m(e, 'get', 'gamma1'), H.num('g'))]
        out += [(H.call('len', v), Const(n)) for v, n in ((a, 3), (b, 2), (e, 1))] if False else []
    return out


def run(ctx):
    ctx.explanation = (
        'The conversion routines are evaluated in the value-numbering domain with an unknown flat cosmology (unknown comoving distance per redshift, unknown expansion rate), unknown redshifts and unknown '
        'physical quantities; each result must carry the value number of its definition, and compositions with the inverse must be the identity.')
    ctx.assumptions.append('random interpretation: a wrong "equal" has probability below 1e-8 per relation')
    ctx.assumptions.append('distances of a background cosmology (astropy) are those of one flat cosmology; splines are functions of their knots')
    ctx.rule('distance', 'distances, scalings and densities follow their definition')
    ctx.rule('inverse', 'physical and angular quantities convert back and forth')
    ctx.rule('halo', 'halo mass, radius, density and concentration agree')
    ctx.rule('history', 'conversions do not depend on earlier ones')
    R = [('distance', 'angular diameter and time delay distances', distances), ('distance', 'scaling to the same source plane', same_plane), ('distance', 'critical surface density', densities),
         ('distance', 'units', units), ('distance', 'lengths', lengths), ('distance', 'critical surface density of kinematics', dynamics), ('distance', 'critical density', critical), ('distance', 'mass of the cone', coin), ('distance', 'Hubble constant of a time delay distance', hubble),
         ('inverse', 'time delays', delays), ('inverse', 'external convergence', sky_factors), ('inverse', 'isothermal sphere', isothermal), ('inverse', 'dual pseudo-isothermal', truncated),
         ('inverse', 'stellar mass', stars), ('inverse', 'Hernquist', hernquist), ('inverse', 'point mass', micro), ('inverse', 'power law for another source', scaling(False)), ('inverse', 'power law for the same source', scaling(True)),
         ('inverse', 'hernquist angular -> physical', inverse('hernquist_angular2phys', 'hernquist_phys2angular', ('s', 'r'))), ('inverse', 'hernquist physical -> angular', inverse('hernquist_phys2angular', 'hernquist_angular2phys', ('m', 'r'))),
         ('inverse', 'lengths', inverse('arcsec2phys_lens', 'phys2arcsec_lens', ('t',))),
         ('halo', 'NFW', halo(NP_)), ('halo', 'generalised NFW', halo(GP, ('gamma_in',))), ('halo', 'generalised and standard', generalised), ('halo', 'NFW on the sky', physical('nfw')), ('halo', 'generalised NFW on the sky', physical('gnfw')),
         ('halo', 'generalised NFW deflection', gnfw_norm), ('halo', 'components of a simulated lens', simulated),
         ('history', 'NFW concentration', concentration(NP_)), ('history', 'NFW on the sky', physical('nfw', True)), ('history', 'generalised NFW on the sky', physical('gnfw', True))]
    decide(ctx, R, nd=True)
    decide(ctx, [('history', 'generalised NFW concentration', concentration(GP, ('gamma_in',)))], nd=True, n=1)
    for r, k in (('distance', 5), ('inverse', 8), ('halo', 4), ('history', 2)):
        ctx.min_ok(r, k)
