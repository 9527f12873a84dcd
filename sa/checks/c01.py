"""C01 calls leave the caller's inputs as they were: no public function writes into a container or array it was given."""
import os
from .. import effects
from ..ctx import REPO

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'api_c01.txt')

# interfaces whose contract is to update the object they are given (documented or the only way their result is delivered)
IN_PLACE = {
    'ImSim.image_linear_solve.ImageLinearFit.image_linear_solve': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.image_linear_solve.ImageLinearFit.image_pixelbased_solve': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.image_linear_solve.ImageLinearFit.likelihood_data_given_model': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.image_linear_solve.ImageLinearFit.likelihood_data_given_model_solution': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.image_linear_solve.ImageLinearFit.update_linear_kwargs': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.MultiBand.single_band_multi_model.SingleBandMultiModel.image_linear_solve': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.MultiBand.single_band_multi_model.SingleBandMultiModel.likelihood_data_given_model': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'ImSim.MultiBand.single_band_multi_model.SingleBandMultiModel.update_linear_kwargs': ('kwargs_source', 'kwargs_lens_light', 'kwargs_ps'),
    'LensModel.Solver.solver2point.Solver2Point.add_fixed_lens': ('kwargs_fixed_lens_list',),
    'LensModel.Solver.solver4point.Solver4Point.add_fixed_lens': ('kwargs_fixed_lens_list',),
    'LensModel.Solver.solver.Solver.add_fixed_lens': ('kwargs_fixed_lens',),
    # the lens model state of the optimiser: the list it was started from is its working area
    'LensModel.QuadOptimizer.param_manager.PowerLawFreeShear.args_to_kwargs': ('self.kwargs_lens',),
    'LensModel.QuadOptimizer.param_manager.PowerLawFixedShear.args_to_kwargs': ('self.kwargs_lens',),
    'LensModel.QuadOptimizer.param_manager.PowerLawFreeShearMultipole.args_to_kwargs': ('self.kwargs_lens',),
    'LensModel.QuadOptimizer.param_manager.PowerLawFixedShearMultipole.args_to_kwargs': ('self.kwargs_lens',),
    'LightModel.linear_basis.LinearBasis.update_linear': ('kwargs_list',),
    'LightModel.linear_basis.LinearBasis.add_fixed_linear': ('kwargs_fixed_list',),
    'PointSource.point_source.PointSource.update_linear': ('kwargs_ps',),
    'PointSource.point_source_param.PointSourceParam.add_fix_linear': ('kwargs_fixed',),
    'Plots.model_plot.ModelPlot.__init__': ('kwargs_params',),
    'Sampling.Samplers.base_nested_sampler.NestedSampler.prior': ('u',),
    'Util.sampling_util.cube2args_gaussian': ('cube',),
    'Util.sampling_util.cube2args_uniform': ('cube',),
    'Util.kin_sampling_util.KinNNImageAlign.write_npix': ('self.imaging_data', 'self.kinNN_data', 'self.spectra_data'),
    'Util.kin_sampling_util.KinNNImageAlign.update': ('self.imaging_data', 'self.kinNN_data', 'self.spectra_data'),
    'Workflow.fitting_sequence.FittingSequence.align_images': ('self.multi_band_list',),
    'Workflow.fitting_sequence.FittingSequence.psf_iteration': ('self.multi_band_list',),
    'Workflow.fitting_sequence.FittingSequence.fit_sequence': ('self.multi_band_list',),
}
# readers of the COOLEST format: they append to every list they are handed
APPENDERS = 'Util.coolest_read_util.update_kwargs_'


def public(f):
    if f.cls is not None and f.cls.name.startswith('_'):
        return False
    return f.name in ('__init__', '__call__') or not f.name.startswith('_')


def allowed(q, o):
    return q.startswith(APPENDERS) or o in IN_PLACE.get(q, ())


def run(ctx):
    ctx.explanation = (
        'Flow-sensitive, interprocedural alias and effect analysis over every function of the package (summaries to a fixed point). A value is the set of caller-visible '
        'objects it may be; item assignment, in-place operators on arrays, mutating container methods and out= arguments on such an object are effects, propagated through '
        'calls, constructors and attributes that alias constructor arguments. A public function with an effect on an argument that is not part of its contract is reported.')
    ctx.assumptions.append('an in-place operator on a parameter counts when the parameter is documented or named as an array; attributes of objects passed as arguments are the objects\' own state')
    ctx.assumptions.append('in-place contracts (linear amplitudes, appenders, unit-cube maps, PSF/alignment updates of FittingSequence) are listed in the check')
    ctx.rule('argument', 'no write into an object passed as an argument of the call')
    ctx.rule('constructor', 'no write by a method into an object passed to the constructor')
    repo = effects.analyse(effects.Repo(REPO))
    ctx.sites = repo.sites
    try:
        with open(DATA) as fh:
            api = set(fh.read().split())
    except OSError:
        api = set()
    ctx.need(len(api) > 1500, 'list of public functions')
    groups = {}
    n = 0
    for f in repo.fns:
        q = f.qual.split('.', 1)[1]
        if q not in api or not public(f):
            continue
        n += 1
        dirty = set()
        for (o, d), (line, what, leaf) in sorted(f.effects.items()):
            rule = 'argument'
            if o.startswith('self.'):
                if f.cls is None or f.name in ('__init__', '__call__') or not repo.attr_info(f.cls, o[5:])[0]:
                    continue
                rule = 'constructor'
            elif o.startswith('ctor:'):
                rule = 'constructor'
            if allowed(q, o):
                continue
            dirty.add(o)
            groups.setdefault((rule, leaf), []).append((q, o, d, line, f.mod.path))
        if not dirty:
            ctx.ok('argument', q, 'no effect on arguments', '%s:%d' % (f.mod.path, f.node.lineno))
    for (rule, leaf), hits in sorted(groups.items()):
        hits.sort(key=lambda h: (h[2], len(h[0])))
        q, o, d, line, path = hits[0]
        ctx.bad(rule, '%s: %s' % (leaf[0].split('.', 1)[-1], leaf[1]),
                'caller-visible through %s' % '; '.join(sorted({'%s(%s%s)' % (h[0], h[1], '[..]' * h[2]) for h in hits})[:4]), '%s:%d' % (path, line))
    ctx.stats = {'functions': len(repo.fns), 'public': n, 'effect sites': repo.sites}
    ctx.min_ok('argument', 1200)
