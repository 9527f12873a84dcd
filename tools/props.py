prop('C03', 'Model registries, parameter lists, signatures and default limits agree',
     'Every lens and light model name the library advertises can be built, takes exactly the parameters it declares, and has default lower '
     'and upper limits (lower below upper) for exactly its scalar parameters. A name that is not advertised is rejected with an error, never silently ignored.',
     ['configurations', 'inputs'], 'all registered lens and light models, all their parameters and evaluation methods, and unregistered names',
     'About 140 models times three methods times their parameters; the tests build a sample and rarely pass every parameter or read the limits.',
     LENS_FILES + LIGHT_FILES, [('profile import by name', 'lenstronomy/LensModel/profile_list_base.py'), ('light profile import by name', 'lenstronomy/LightModel/light_model_base.py')],
     AI + 'registry resolution, signature and limit-table agreement')
prop('C04', 'Moving a profile and the coordinates together changes nothing',
     'For every lens and light profile with a centre, shifting the evaluation coordinates and the centre by the same amount leaves potential, '
     'deflection, Hessian and surface brightness unchanged, for scalar and array input and on every branch. (A profile whose expansion point is by definition the coordinate origin is excluded.)',
     ['inputs', 'configurations'], 'all profiles with centre parameters, all coordinates, all parameter values',
     'Tests almost always place the profile at the origin, where an absolute-coordinate bug is invisible.',
     LENS_FILES + LIGHT_FILES, [('x_ = x - center_x in every profile', 'lenstronomy/LensModel/Profiles'), ('same for light', 'lenstronomy/LightModel/Profiles')],
     AI + 'translation-weight grades on every returned component')
prop('C05', 'Lensing quantities scale correctly with the angular unit',
     'Expressing all lengths of a lens profile in another angular unit multiplies the potential by the square of the factor, deflections by the factor '
     'and leaves the Hessian unchanged, for every profile made of angular-length parameters. No comparison or branch mixes quantities of different angular dimension.',
     ['inputs', 'configurations'], 'all lens profiles built from dimensional parameters, all parameter values and positions',
     'A wrong power of a radius is invisible when the test uses radius 1, and tests compare profiles against themselves at few points.',
     LENS_FILES, [('profile formulas', 'lenstronomy/LensModel/Profiles')],
     AI + 'dimension (scale exponent) inference', 'Regularisation constants and finite-difference steps are treated as dimension-polymorphic literals.')
prop('C06', 'Brightness is linear in the amplitudes the linear solver inverts',
     'For every light model the surface brightness is proportional to its linear amplitudes, and the number of amplitudes, the unit-amplitude '
     'response basis, the write-back of solved amplitudes and their read-out all agree on count and order. The basis does not depend on amplitude values already present in the arguments.',
     ['inputs', 'configurations'], 'all registered light models, in any position of a model list, all amplitude values',
     'The linear inversion silently returns wrong fluxes for a mis-ordered or non-linear basis; tests check a handful of model combinations.',
     LIGHT_FILES + ['lenstronomy/LightModel/linear_basis.py'], [('linear basis', 'lenstronomy/LightModel/linear_basis.py')],
     AI + 'amplitude-exponent grades plus symbolic coefficient tracking through the linear-basis routines')
prop('C07', 'Mirrored lens models give mirrored lensing',
     'Reflecting the coordinate frame of any lens profile (positions, centres, and the sign of the mirror-odd parameters) leaves the potential unchanged, flips exactly '
     'the mirrored deflection component and flips the off-diagonal Hessian terms, on every branch.',
     ['inputs', 'configurations'], 'all lens profiles, all positions and parameters, both reflection axes',
     'Sign errors in one quadrant or one Hessian element survive tests that sample a positive-quadrant point.',
     LENS_FILES + ['lenstronomy/Util/param_util.py'], [('ellipticity conventions', 'lenstronomy/Util/param_util.py')],
     AI + 'mirror-parity grades on every returned component')
prop('C19', 'Every declared model parameter takes effect',
     'Each parameter a lens or light model declares influences the quantities that model returns: it is used in the computation of every evaluation '
     'it physically affects, and is not silently dropped or replaced by a constant or by another parameter.',
     ['inputs', 'configurations'], 'all declared parameters of all registered profiles, per evaluation method and coordinate kind',
     'A parameter that is ignored in one method (e.g. only the Hessian) passes tests that keep it at its default.',
     LENS_FILES + LIGHT_FILES, [('keyword forwarding', 'lenstronomy/LensModel/Profiles')],
     AI + 'data and control dependence of outputs on each declared parameter')

PARAM_FILES = ['lenstronomy/Sampling/parameters.py', 'lenstronomy/Sampling/special_param.py', 'lenstronomy/Sampling/param_group.py',
               'lenstronomy/LensModel/lens_param.py', 'lenstronomy/LightModel/light_param.py', 'lenstronomy/PointSource/point_source_param.py']
prop('C01', 'Calls leave the caller\'s inputs as they were',
     'No public function, method or constructor of the package modifies an array, list or dictionary it is given, nor does a later method modify one that was given to the constructor: '
     'calling it twice with the same objects gives the same result, and the caller can reuse coordinates, keyword lists, data, kernels and settings afterwards. '
     'Exceptions are the interfaces whose contract is to update their argument (linear amplitudes after a linear inversion, lists a reader appends to, unit-cube maps, PSF/alignment updates of FittingSequence).',
     ['inputs', 'histories'], 'every public function, every argument, every path through it and its callees',
     'A write into an argument shows only when the object is reused and only on the path that writes; tests build fresh arguments for every call.',
     ['lenstronomy'],
     [('kwargs handling in the linear inversion', 'lenstronomy/ImSim/image_linear_solve.py'), ('profile set-up', 'lenstronomy/LensModel/profile_list_base.py'), ('fit settings', 'lenstronomy/Workflow/update_manager.py'),
      ('kernel utilities', 'lenstronomy/Util/kernel_util.py')],
     'Flow-sensitive interprocedural alias and effect analysis of the whole package')
prop('C02', 'The sampled parameter vector and the keyword arguments are inverse views',
     'For every model configuration and set of fixed parameters, packing keyword arguments into the flat sampling vector and unpacking it again returns the same '
     'value for every sampled parameter, and fixed parameters keep their fixed values. The number of parameters, their names, and both limit vectors agree entry by entry with that vector.',
     ['configurations', 'inputs', 'histories'], 'all lens, light, point-source and special parameters, every subset of fixed parameters the check enumerates, symbolic values',
     'A swapped or mis-counted entry only shows for one model combination; the tests pack a few fixed configurations whose values often coincide.',
     PARAM_FILES, [('Param.args2kwargs / kwargs2args', 'lenstronomy/Sampling/parameters.py')],
     AI + 'symbolic parameter vectors followed exactly through packing and unpacking code')
prop('C21', 'Linked, joint and scaled parameters are what the constraint says',
     'In every unpacked configuration a parameter joined to another component equals the parameter it is joined to and occupies no entry of the sampled vector. '
     'Mass-scaled parameters follow their own scale factor, sampled redshifts replace exactly the listed ones, and unlinked parameters stay independent.',
     ['configurations', 'inputs'], 'all joint-parameter options between lens, source, lens light, point source and extinction models, mass scaling and redshift sampling',
     'Constraint options multiply; tests exercise each with symmetric or equal values where a link to the wrong component is invisible.',
     PARAM_FILES, [('joint parameter update', 'lenstronomy/Sampling/parameters.py')],
     AI + 'symbolic parameter vectors followed exactly through the constraint code')

VN = 'value-numbering dataflow analysis (random interpretation over finite fields) of the source: '
prop('C12', 'A model list behaves as the sum of its components',
     'Potential, deflection, Hessian, enclosed mass, density and surface brightness of a model list are exactly the sum over the components selected by the index argument, '
     'each evaluated at the requested position with its own keyword arguments (and the source-redshift scaling applied once). Per-component outputs and unit responses list exactly the selected components, in order.',
     ['inputs', 'configurations'], 'all component outputs, positions and keyword values; every index selection of a three-component list',
     'The sum is over user-chosen lists and selections; tests use one or two components and rarely a selection together with scaling.',
     ['lenstronomy/LensModel/single_plane.py', 'lenstronomy/LensModel/profile_list_base.py', 'lenstronomy/LightModel/light_model_base.py', 'lenstronomy/LightModel/linear_basis.py'],
     [('SinglePlane summation loops', 'lenstronomy/LensModel/single_plane.py'), ('LightModelBase summation', 'lenstronomy/LightModel/light_model_base.py')],
     VN + 'aggregation code over uninterpreted component functions')
prop('C18', 'Multi-plane and line-of-sight lensing follow the lens recursion',
     'For every ordering of the lens redshifts, multi-plane ray shooting, partial ray shooting, deflection, Hessian and arrival time equal the lens recursion through the planes in front of the source, '
     'with each component\'s own parameters, also for lenses given at their observed (lensed) positions. After any sequence of source-redshift or cosmology updates the model equals a freshly built one. '
     'Line-of-sight models obey their distorted lens equation and the matching Hessian and Fermat potential.',
     ['configurations', 'inputs', 'histories'], 'three planes in every order, ties, planes behind the source, source before or behind the convention redshift, all profile outputs and distances; all update sequences up to length three',
     'The tests use sorted redshifts, sources behind all lenses and symmetric positions, where plane-order, cut-off and axis mistakes cancel.',
     ['lenstronomy/LensModel/MultiPlane/multi_plane.py', 'lenstronomy/LensModel/MultiPlane/multi_plane_base.py', 'lenstronomy/LensModel/LineOfSight/single_plane_los.py', 'lenstronomy/LensModel/lens_model.py'],
     [('ray_shooting_partial_comoving', 'lenstronomy/LensModel/MultiPlane/multi_plane_base.py'), ('observed positions', 'lenstronomy/LensModel/MultiPlane/multi_plane.py'), ('line-of-sight distortion', 'lenstronomy/LensModel/LineOfSight/single_plane_los.py')],
     VN + 'recursion over uninterpreted profiles and an unknown flat distance per redshift, compared with an independent recursion', 'Flat background: transverse comoving distances add.')
prop('C20', 'Derived lensing quantities obey their defining relations',
     'Convergence, shear, curl, magnification, ray shooting, Fermat potential and arrival time are exactly the standard functions of the potential, deflection and Hessian of the same model and selection. '
     'The finite-difference variants converge to the same derivatives: they are exact on low-order potentials for every step size and stencil.',
     ['inputs', 'configurations'], 'all values of potential, deflection and Hessian, all step sizes, component selections, single-plane and line-of-sight models',
     'Sign and factor errors in one off-diagonal or one option combination vanish for the symmetric, curl-free test lenses.',
     ['lenstronomy/LensModel/lens_model.py', 'lenstronomy/LensModel/single_plane.py', 'lenstronomy/LensModel/LineOfSight/single_plane_los.py'],
     [('LensModel derived quantities', 'lenstronomy/LensModel/lens_model.py')],
     VN + 'derived quantities over uninterpreted and polynomial profiles')


prop('C23', 'Potential, deflection and Hessian of a lens profile agree',
     'For every lens profile with closed-form expressions, deflection_x/deflection_y are the gradient of its own potential and (f_xx, f_xy, f_yx, f_yy) the Jacobian of its own deflection, '
     'in every regime (branch) of the formulas and for all parameter values, scalars and arrays alike.',
     ['inputs'], 'all positions and parameter values of all supported lens profiles (numerical differentiation steps taken as infinitesimal; tabulated and interpolated profiles excluded)',
     'Tests compare with finite differences at a few points of one regime of the formula; special cases (core, inner/outer radius, round limit) have their own formulas.',
     LENS_FILES, [('function / derivatives / hessian of each profile', 'lenstronomy/LensModel/Profiles')],
     VN + 'exact Taylor coefficients of each method on every trace of its branches')

prop('C10', 'An image is the sum of its components, as linear response and inversion assume',
     'A simulated image is the sum of the requested components (sources, lens light, point sources), and each of these the sum of its own components: every pixel is the brightness of the model over that pixel, with '
     'extinction, flux scaling and primary beam applied, convolved with the PSF, and each source component is evaluated where the ray meets its own source plane. On the pixels of the likelihood mask the image equals '
     'the linear response times the amplitudes; amplitudes are read, counted and written back in that order. The linear inversion solves the normal equations with the noise model, and the model '
     'it returns is the image of the updated arguments.',
     ['inputs', 'histories', 'configurations'], 'all pixel values, noise, coordinate systems, model parameters and amplitudes; enumerated shapes, model lists, masks and options',
     'Tests compare images of one configuration against recorded numbers; a component lost, mis-scaled or mis-ordered with one combination of options passes them.',
     ['lenstronomy/ImSim/image_model.py', 'lenstronomy/ImSim/image_linear_solve.py', 'lenstronomy/ImSim/image2source_mapping.py', 'lenstronomy/ImSim/de_lens.py', 'lenstronomy/ImSim/differential_extinction.py',
      'lenstronomy/Data/imaging_data.py', 'lenstronomy/Data/image_noise.py'],
     [('image model', 'lenstronomy/ImSim/image_model.py'), ('linear response and inversion', 'lenstronomy/ImSim/image_linear_solve.py'), ('source planes', 'lenstronomy/ImSim/image2source_mapping.py')],
     VN + 'the classes evaluated together on images of unknown pixel values; results compared with the definition')
prop('C13', 'Point source positions, amplitudes and linear response agree',
     'For every list of point sources (unlensed, image positions, source position) with their own redshift, lens frame, magnification setting and flux selection: image positions are those given, or those the lens '
     'equation solver finds for the source with the configured settings; source positions are where the images are traced to; image amplitudes are the given ones, or the source amplitude times the absolute '
     'magnification at the images, and source amplitudes the inverse. The linear response times the amplitudes is the list of point sources, counted, read and written back in the same order. Evaluating leaves '
     'the lens model as it was, and with caching on or off, in any order of calls, the results are those of a fresh model.',
     ['inputs', 'histories', 'configurations'], 'all positions, amplitudes, lens parameters and solver results; enumerated kinds, orders, numbers of images, redshifts, frames, settings and call sequences',
     'Tests use one list with one redshift and a lens of nearly constant magnification; wrong order, stale caches and ignored settings stay invisible.',
     ['lenstronomy/PointSource/point_source.py', 'lenstronomy/PointSource/point_source_cached.py', 'lenstronomy/PointSource/Types'],
     [('point source list', 'lenstronomy/PointSource/point_source.py'), ('cache', 'lenstronomy/PointSource/point_source_cached.py'), ('types', 'lenstronomy/PointSource/Types')],
     VN + 'the lens equation solver replaced by an unknown function of source position, deflection field and settings')
prop('C14', 'Likelihood terms are log-probabilities of their data and add up',
     'The log-likelihood is the sum of the selected terms, or -1e18 outside of the parameter bounds, and does not depend on previous evaluations. Each term is the Gaussian log-probability (without normalisation) of its '
     'data given the model: image pixels within the mask with their noise and the PSF variance of point sources, time delays relative to the first image, flux ratios, displacements, image and source positions '
     '(with the covariance the lens maps to the source plane), brightness-weighted tracers, binned velocities and priors, each with the measurement, uncertainty, redshift and component it names; the number of data '
     'counts the values used. Undefined values are replaced by the documented low likelihood.',
     ['inputs', 'histories', 'configurations'], 'all data, uncertainties and model parameters; enumerated numbers of sources, images, data and terms, selections, masks and histories',
     'Tests evaluate a likelihood at the truth, where every term vanishes, or compare recorded numbers of one configuration.',
     ['lenstronomy/Sampling/likelihood.py', 'lenstronomy/Sampling/Likelihoods', 'lenstronomy/Data/imaging_data.py', 'lenstronomy/Data/image_noise.py', 'lenstronomy/ImSim/tracer_model.py', 'lenstronomy/ImSim/image_model.py'],
     [('sum of the terms', 'lenstronomy/Sampling/likelihood.py'), ('terms', 'lenstronomy/Sampling/Likelihoods'), ('pixel likelihood', 'lenstronomy/Data/imaging_data.py')],
     VN + 'each term compared with the Gaussian of its data; syntax-tree rule for tests that cannot succeed')
prop('C17', 'Each band of a multi-band model is the image of its selected components',
     'A band of a multi-band model is the image model made of the lens, source, lens light, point source and extinction components selected for it, with their own settings and arguments, in the pixel frame, PSF, noise and '
     'mask of that band and displaced by its own astrometric offset, whatever was evaluated before. Independently solved bands add up their likelihoods; jointly solved bands share the amplitudes that solve the normal '
     'equations of all bands together, with their model errors. Bands that are not computed are left out of likelihoods, residuals and reconstructions.',
     ['inputs', 'histories', 'configurations'], 'all pixel values, noise, coordinate systems and parameters of two bands; enumerated selections, masks, computed bands and call sequences',
     'Tests use identical bands and rarely a selection or a subset, so a mix-up of bands or of their components cancels.',
     ['lenstronomy/ImSim/MultiBand', 'lenstronomy/Util/class_creator.py', 'lenstronomy/Analysis/image_reconstruction.py'],
     [('band', 'lenstronomy/ImSim/MultiBand/single_band_multi_model.py'), ('joint solution', 'lenstronomy/ImSim/MultiBand/joint_linear.py'), ('selection', 'lenstronomy/Util/class_creator.py')],
     VN + 'bands evaluated together and compared with image models built by hand')
prop('C11', 'Surface brightness is evaluated at and placed in the right pixels',
     'An image pixel is the mean of the model brightness at the centres of its sub-pixels, mapped to the sky by the coordinate system of the data, for square and rectangular images, any supersampling, '
     'any mask of evaluated or supersampled pixels and any sub-frame; excluded pixels are zero and included ones do not depend on the mask. Re-sizing, partial images and adding a layer at a position keep '
     'flux and position, and a point source contributes its amplitude times the point spread function centred at its sub-pixel position.',
     ['inputs', 'configurations'], 'all brightness distributions, coordinate systems and amplitudes; enumerated image shapes, supersampling factors, masks and frames',
     'Tests use square images, full masks or symmetric sources, for which swapped axes, a transposed mask or a shift by half a pixel is invisible.',
     ['lenstronomy/ImSim/Numerics', 'lenstronomy/ImSim/image_model.py', 'lenstronomy/Util/image_util.py', 'lenstronomy/Util/util.py', 'lenstronomy/Data/pixel_grid.py', 'lenstronomy/Data/psf.py'],
     [('regular and adaptive grids', 'lenstronomy/ImSim/Numerics/grid.py'), ('sub-frames', 'lenstronomy/ImSim/Numerics/numerics_subframe.py'),
      ('point source rendering', 'lenstronomy/ImSim/Numerics/point_source_rendering.py')],
     VN + 'arrays of concrete shape with value-numbered elements; pixel values compared with the brightness of the sub-pixels they stand for')
prop('C43', 'Convolution equals the centred sum; kernels keep norm and centre',
     'Convolving an image by any supported method (FFT, pre-computed FFT, direct grid, masked, supersampled or adaptive) gives the centred sum over image and kernel, for the first and every further image, '
     'so interior flux is multiplied by the sum of the kernel. Degrading, splitting, cutting, resampling and resizing a kernel keep its norm and commute with mirroring it. The kernels of a PSF have its norm '
     'and do not depend on which supersampling was requested before, and an image simulated with a PSF is the brightness convolved with its kernel.',
     ['inputs', 'histories', 'configurations'], 'all pixel values of images and kernels; enumerated shapes, supersampling factors, masks, methods and request histories',
     'Tests use centred symmetric Gaussians to a few percent; a displaced, transposed or slightly mis-normalised kernel passes them.',
     ['lenstronomy/ImSim/Numerics/convolution.py', 'lenstronomy/ImSim/Numerics/numba_convolution.py', 'lenstronomy/ImSim/Numerics/adaptive_numerics.py', 'lenstronomy/ImSim/Numerics/numerics.py',
      'lenstronomy/Util/kernel_util.py', 'lenstronomy/Util/image_util.py', 'lenstronomy/Data/psf.py'],
     [('convolution classes', 'lenstronomy/ImSim/Numerics/convolution.py'), ('kernel operations', 'lenstronomy/Util/kernel_util.py'), ('cached kernels', 'lenstronomy/Data/psf.py')],
     VN + 'arrays of concrete shape with value-numbered elements, a spectrum kept as its array; results compared with the direct sum')
prop('C44', 'Coordinate, ellipticity and unit conversions invert each other',
     'Cartesian/polar, shear, ellipticity/axis-ratio, magnitude/count-rate and other unit conversions compose with their inverses to the identity, and the elliptical coordinate transforms reproduce '
     'the elliptical radius of their documented convention. Pixel and sky coordinates of a coordinate system are inverse to each other after any sequence of shifts, updates and rotations, its reference '
     'points and matrices agree with the map, and its pixel grids are the images of the pixel indices.',
     ['inputs', 'histories'], 'all points, centres, angles, ellipticities and transformation matrices; all coordinate-system histories of length up to two',
     'Tests use identity-like matrices, centres at the origin and single updates, for which a wrong sign, a dropped centre or a stale reference point is invisible.',
     ['lenstronomy/Util/param_util.py', 'lenstronomy/Util/util.py', 'lenstronomy/Util/data_util.py', 'lenstronomy/Data/coord_transforms.py', 'lenstronomy/Data/pixel_grid.py'],
     [('parameter conversions', 'lenstronomy/Util/param_util.py'), ('coordinate system state', 'lenstronomy/Data/coord_transforms.py')],
     VN + 'compositions of conversion functions compared with the identity')
prop('C45', 'Radial mass profile quantities are consistent with one another',
     'For every lens profile that provides them, the enclosed 3d mass is the integral of its density and the projected mass the integral of its surface density (checked as derivatives), '
     'the deflection equals the projected mass over pi R and the convergence the projected density for the same amplitude, and the conversions between deflection normalisation and density amplitude are inverse.',
     ['inputs'], 'all radii and parameter values of all supported profiles with radial mass functions',
     'Each quantity is tested against itself at a few points; a wrong prefactor or a radius in the wrong unit shows only when two of them are compared at a scale other than one.',
     LENS_FILES, [('mass_3d / density / mass_2d / density_2d of each profile', 'lenstronomy/LensModel/Profiles')],
     VN + 'radial derivatives of one method compared with the others')

prop('C09', 'Objects keep no hidden state of other objects or of earlier calls',
     'What a call returns depends on its arguments and the object it is made on: no function writes into the containers of a module or class or into a default argument, which other objects share; a result kept of the '
     'arguments of a call is compared with the arguments of the next one, or dropped by the reset method of its class, of the objects that hold it and between the calls of the object that manages it; a result derived '
     'from attributes of an object is dropped when one of them is replaced; and components of a lens model that keep state of their arguments are separate objects.',
     ['inputs', 'histories'], 'all functions and all paths through them, all lazily kept attributes and the methods that replace what they depend on, all registered lens models',
     'Tests construct an object, evaluate it once and drop it; a stale or shared value shows in the second object or the second call with other arguments.',
     ['lenstronomy'], [('kept results', 'lenstronomy/GalKin'), ('static lens parameters', 'lenstronomy/LensModel/Profiles'), ('shared configuration', 'lenstronomy/SimulationAPI/ObservationConfig')],
     'interprocedural effects analysis on module, class and default containers; dataflow analysis of lazily kept attributes: dependences, resets and paths between calls')
prop('C16', 'Physical and angular quantities of a cosmology convert consistently',
     'Distances, time delay distances, critical surface densities and scalings between source planes follow their definition for the redshifts of the lens; every conversion between physical and angular quantities '
     '(lengths, isothermal, Hernquist, NFW, generalised NFW and dual pseudo-isothermal profiles, stellar and point masses, time delays) composed with its inverse is the identity; mass, radius, density and concentration '
     'of a halo agree with one another and with the lens profile made of them; and no conversion depends on what was asked before.',
     ['inputs', 'histories'], 'all flat cosmologies, redshifts, masses, concentrations and angular quantities; sequences of two requests',
     'Tests use one cosmology and one redshift pair to a few digits, where a wrong distance, a missing factor h or a remembered redshift hides.',
     ['lenstronomy/Cosmo', 'lenstronomy/GalKin/cosmo.py', 'lenstronomy/Analysis/td_cosmography.py', 'lenstronomy/SimulationAPI/model_api.py'],
     [('conversions', 'lenstronomy/Cosmo/lens_cosmo.py'), ('halo relations', 'lenstronomy/Cosmo/nfw_param.py'), ('distances', 'lenstronomy/Cosmo/background.py')],
     VN + 'conversions on an unknown cosmology compared with their definition and their inverse')

NA = [
 ('C41', 'Returned image positions solve the lens equation and none are missed',
  'Every image position returned for a source maps back to that source within the requested precision, and all images in the search window above the magnification limit are found.',
  'Quantifies over the convergence of an iterative numerical root finder on runtime floating-point values.'),
 ('C42', 'Samplers and optimisers converge to the posterior',
  'Given enough iterations the samplers draw from the posterior implied by the likelihood and prior.',
  'A statistical statement about runtime chains; not a source-level fact.'),
]
for i, t, s, r in NA:
    prop(i, t, s, ['inputs'], 'all inputs', 'Tests sample a few parameter points.', ['lenstronomy'], [('numerical code', 'lenstronomy')], na=r)
