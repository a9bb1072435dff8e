PROPS = [
 dict(id='P01', title='Proximal operators, projections and norms match their definitions',
  statement='Every proximal operator returns the unique minimiser of its function plus half the squared distance to the argument, every projection returns the nearest point of its set, and every norm returns the value of its definition. This holds for any real or complex input, threshold, radius and axis choice, including zeros, ties and inputs already inside the set. Arguments are not modified.',
  over=['inputs', 'configurations'], q='All input values and parameters (including degenerate ones) and all axis choices, at bounded array sizes.',
  why='Tests compare a handful of random arrays with reference values; the boundaries (zero groups, ties, points on or inside the set, complex zeros, unusual axes) are measure-zero for random data.',
  files=['sporco/prox/_lp.py', 'sporco/prox/_l21.py', 'sporco/prox/_nuclear.py', 'sporco/prox/_l1proj.py', 'sporco/prox/_util.py', 'sporco/prox/_dl1l2.py'],
  mech=[('thresholding formulas', 'sporco/prox/_lp.py'), ('group shrinkage', 'sporco/prox/_l21.py'), ('l1 ball projection root finding', 'sporco/prox/_lp.py')]),
 dict(id='P02', title='Structured linear solvers return the exact solution of their systems',
  statement='Every structured linear solver (diagonal plus rank-one or low-rank, multiple dictionary terms, extra regularisation diagonals, factorised and iterative forms) returns the solution of the system it is documented to solve. Cached factorisations and precomputed terms never change the answer, and the companion helpers (inner products, block operators, Kronecker products, Gram and condition helpers) equal their mathematical definitions. Arguments are not modified.',
  over=['inputs', 'configurations'], q='All coefficient, diagonal and right-hand-side values, all axis layouts and solver options, at bounded sizes.',
  why='Tests evaluate the residual for one random system per solver; layouts with singleton axes, scalar versus array diagonals, tall versus wide systems and cached terms are combinations they do not reach.',
  files=['sporco/linalg.py'],
  mech=[('Sherman-Morrison solvers', 'sporco/linalg.py: solvedbi_sm, solvedbd_sm, solvemdbi_*'), ('factorised solvers', 'sporco/linalg.py: lu_*, cho_*')]),
 dict(id='P03', title='FFT, DCT and frequency-domain convolution are exact',
  statement='Forward and inverse transforms are mutually inverse along any axes, real transforms equal the non-redundant half of complex ones, norms computed in the frequency domain equal norms of the signals, and frequency-domain convolution equals circular convolution with the requested origin. Zero-padding arguments pad or crop as documented, and buffers have the shape and type of the transform. Arguments are not modified.',
  over=['inputs', 'configurations'], q='All array values, odd and even sizes, axis subsets, paddings and origins, at bounded sizes.',
  why='Tests sample a few shapes with random data, mostly even sizes and trailing axes; the odd/even boundary of the half spectrum and axis permutations are not covered exhaustively.',
  files=['sporco/fft.py'],
  mech=[('transform wrappers', 'sporco/fft.py'), ('half-spectrum norm weighting', 'sporco/fft.py: rfl2norm2')]),
 dict(id='P04', title='Array utilities rearrange, stack and extract values without loss',
  statement='Padding, rolling, block extraction and averaging, stacking and unstacking, dimension promotion, promotion to complex, safe division and the normalisation helpers produce exactly the documented arrangement of their input values for every input. Extraction followed by recombination returns the original array, including positions covered by several blocks. Arguments are not modified unless documented.',
  over=['inputs', 'configurations'], q='All array values, window sizes, strides, paddings and axis choices, at bounded sizes.',
  why='Tests use a few shapes; strides that leave a partial last block, asymmetric padding and overlapping windows are rarely exercised.',
  files=['sporco/array.py'],
  mech=[('index arithmetic', 'sporco/array.py')]),
 dict(id='P05', title='Dimension inference and dictionary constraints are consistent',
  statement='For every accepted combination of dictionary, signal, mask and weight dimensions, the inferred internal layout assigns each axis (spatial, channel, signal, filter) correctly and reshaping to it and back loses nothing. Zero-padding and cropping of dictionaries are mutually inverse on filters of any (also mixed) sizes, and the dictionary constraint projection returns the nearest dictionary that is supported in the filter size, optionally has zero mean, and has unit norm (or norm at most one). Normalisation makes every non-zero filter unit norm and leaves zero filters at zero.',
  over=['inputs', 'configurations'], q='All dimension combinations (symbolic sizes), all dictionary values, at bounded sizes.',
  why='The layout rules have many ambiguous cases (one channel, one signal, explicit or implicit axes); tests check a handful with fixed sizes.',
  files=['sporco/cnvrep.py'],
  mech=[('axis inference', 'sporco/cnvrep.py: CSC_ConvRepIndexing, CDU_ConvRepIndexing'), ('constraint projection', 'sporco/cnvrep.py: getPcn, Pcn'), ('weight and mask shapes', 'sporco/cnvrep.py: l1Wshape, mskWshape')]),
 dict(id='P06', title='Each ADMM sparse coding iteration solves its subproblems exactly',
  statement='From any primal and dual state, one iteration of every ADMM sparse coding solver (standard and convolutional basis pursuit denoising and its joint, elastic net, gradient, projection, constrained, masked and multi-dictionary variants) computes the exact minimiser of each documented subproblem and the documented relaxation and dual update. This holds for every combination of options (penalty changes, cached solves, weights, masks, non-negativity, boundary exclusion, dictionary replacement, warm start) and every layout of channels and signals. Inputs are not modified.',
  over=['inputs', 'configurations', 'histories'], q='All signal, primal and dual values; all listed solver, option and layout combinations, at bounded sizes.',
  why='Tests run the solvers to approximate convergence for one or two layouts; a wrong cached term, weight axis, mask axis or relaxation that still converges to something plausible is not noticed.',
  files=['sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/admm.py'],
  mech=[('x step linear solves and caches', 'sporco/admm/cbpdn.py: xstep, setdict, rhochange'), ('y step proximal maps', 'sporco/admm/cbpdn.py: ystep'), ('relaxation and dual update', 'sporco/admm/admm.py')]),
 dict(id='P07', title='Specialised convolutional sparse coding iterations are exact',
  statement='From any primal and dual state, one iteration of the total variation (scalar, vector and reconstruction), inhibition and product dictionary convolutional sparse coding solvers computes the exact minimiser of each documented subproblem, the documented adaptive weights, and the documented relaxation and dual update. This holds for every combination of options (penalty changes, cached solves, weights, masks, non-negativity, dictionary replacement, warm start) and every layout of channels and signals. Inputs are not modified.',
  over=['inputs', 'configurations', 'histories'], q='All signal, primal and dual values; all listed solver, option and layout combinations, at bounded sizes.',
  why='Tests only check that most of these solvers run; a wrong grouping axis or stale cached term still converges to something.',
  files=['sporco/admm/cbpdntv.py', 'sporco/admm/cbpdnin.py', 'sporco/admm/pdcsc.py'],
  mech=[('x step linear solves', 'sporco/admm/cbpdntv.py, pdcsc.py: xstep'), ('group shrinkage axes', 'sporco/admm/cbpdntv.py: ystep'), ('inhibition weights', 'sporco/admm/cbpdnin.py: ystep')]),
 dict(id='P08', title='The generic ADMM framework iterates, stops and reports as documented',
  statement='For any user-defined problem built on an ADMM base class, every iteration performs the steps in the documented order with the documented relaxation, dual update, residuals and tolerances, the penalty parameter is adapted and the scaled dual variable rescaled exactly by the documented rule, and iteration stops exactly when both residuals are below their tolerances, the callback asks for it or the iteration limit is reached. Statistics record the values of the iteration they label. Stopping and resuming performs the same iterations as running without interruption.',
  over=['inputs', 'histories', 'configurations'], q='All values produced by the user steps at every iteration (up to 3), all residual orderings and ties, all option combinations listed.',
  why='Tests fix one problem and one option set; the order of residual tests, the penalty update with its rescaling, period and limits, and resumption are only correct if they hold for every sequence of iterates.',
  files=['sporco/admm/admm.py', 'sporco/common.py'],
  mech=[('main loop', 'sporco/admm/admm.py: ADMM.solve'), ('residuals', 'sporco/admm/admm.py: compute_residuals'), ('penalty adaptation', 'sporco/admm/admm.py: update_rho'), ('consensus', 'sporco/admm/admm.py: ADMMConsensus')]),
 dict(id='P09', title='Sparse coding statistics and reconstructions match the documented functional',
  statement='For every ADMM sparse coding solver the reported functional value, data fidelity and regularisation terms (or constraint violation) equal the documented functional evaluated at the documented variable (primal or auxiliary, as selected by the options), for every layout of channels, signals, masks and weights. Reconstruction equals the documented synthesis from the current dictionary and the given or current coefficients. This also holds after the dictionary has been replaced.',
  over=['inputs', 'configurations'], q='All states after an iteration, signals, masks and coefficient values; all listed solver, option and layout combinations, at bounded sizes.',
  why='Tests never compare the reported values with an independent evaluation; half-spectrum weighting, missing weights or a stale frequency-domain copy produce plausible numbers.',
  files=['sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/cbpdntv.py', 'sporco/admm/cbpdnin.py', 'sporco/admm/pdcsc.py'],
  mech=[('functional terms', 'sporco/admm/*: obfn_dfd, obfn_reg, obfn_g0, obfn_g1'), ('variable selection', 'sporco/admm/*: obfn_fvar, obfn_gvar'), ('synthesis', 'sporco/admm/*: reconstruct')]),
 dict(id='P10', title='Constraint operators, adjoints and residuals of sparse coding solvers agree',
  statement='For every ADMM sparse coding solver the constraint operator maps coefficients to the documented auxiliary blocks, its declared adjoint is its exact adjoint, and stacking blocks and separating them again loses nothing. The primal and dual residuals, their normalisations and the stopping tolerances are those of the documented constraint with the true numbers of variables. This holds for all channel, signal and filter layouts.',
  over=['inputs', 'configurations'], q='All coefficient, auxiliary and dual values; all listed solver and layout combinations, at bounded sizes.',
  why='A wrong adjoint or residual only changes when the solver stops, which no test checks; the multi-channel and multi-signal layouts are not run at all for most solvers.',
  files=['sporco/admm/admm.py', 'sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py', 'sporco/admm/cbpdntv.py', 'sporco/admm/pdcsc.py'],
  mech=[('operators', 'sporco/admm/*: cnst_A, cnst_AT, cnst_A0, cnst_A0T'), ('blocks', 'sporco/admm/*: block_sep, block_cat'), ('residuals', 'sporco/admm/*: rsdl_r, rsdl_s, rsdl_rn, rsdl_sn')]),
 dict(id='P11', title='The proximal gradient framework iterates, adapts and stops as documented',
  statement='For any user-defined problem, every iteration takes a proximal gradient step from the extrapolated point with the documented momentum sequence, step size policy or line search (standard or robust), so that an accepted line search step always satisfies the quadratic upper bound test, and the monotone variant never increases the objective after its first iteration and returns the iterate whose objective it reports. Iteration stops exactly when the residual is below the (possibly adaptive) tolerance, the callback asks for it or the limit is reached, and statistics record the values of the iteration they label. Resuming continues the same iteration, and solvers built from the same options do not influence each other.',
  over=['inputs', 'histories', 'configurations'], q='All gradients, proximal points and function values produced by the user problem at every call, all residual orderings, up to 3 iterations and 3 line search trials.',
  why='Tests run one problem per option; rejected steps, exhausted or repeated line searches, negative curvature estimates and shared option objects depend on the history of iterates.',
  files=['sporco/pgm/pgm.py', 'sporco/pgm/backtrack.py', 'sporco/pgm/momentum.py', 'sporco/pgm/stepsize.py', 'sporco/common.py'],
  mech=[('main loop', 'sporco/pgm/pgm.py: PGM.solve, xstep, ystep'), ('line search', 'sporco/pgm/backtrack.py'), ('step size', 'sporco/pgm/stepsize.py'), ('momentum', 'sporco/pgm/momentum.py')]),
 dict(id='P12', title='Proximal gradient sparse coding uses the gradient and prox of its functional',
  statement='For the standard, weighted, convolutional and masked proximal gradient sparse coding solvers, the gradient and Hessian are those of the documented data fidelity term, one iteration from any state is the documented proximal gradient step (with weights, non-negativity and boundary options), and the reported statistics are the values of the documented functional. Reconstruction equals the documented synthesis. This holds for all channel, signal and filter layouts, masks and replaced dictionaries.',
  over=['inputs', 'configurations'], q='All signals, masks, coefficients, evaluation points and directions; all listed layouts and options, at bounded sizes.',
  why='Tests only check that a random problem decreases its objective; a gradient with a wrong mask power or axis still does.',
  files=['sporco/pgm/bpdn.py', 'sporco/pgm/cbpdn.py'],
  mech=[('gradient and Hessian', 'sporco/pgm/*: grad_f, hessian_f'), ('proximal map', 'sporco/pgm/*: prox_g'), ('functional', 'sporco/pgm/*: eval_objfn, obfn_f')]),
 dict(id='P13', title='Each ADMM dictionary update iteration solves its subproblems exactly',
  statement='From any primal and dual state, one iteration of every ADMM dictionary update solver (standard, and convolutional with or without a mask, for the direct, iterative and consensus methods) computes the exact minimiser of each documented subproblem, the documented relaxation and the documented dual updates, also after penalty changes or replaced coefficients. Constraint operators, residuals, tolerances, reported data fidelity and constraint violation, the returned dictionary and reconstructions are those of the documented problem. This holds for every layout of channels, signals, filters and masks.',
  over=['inputs', 'configurations', 'histories'], q='All signal, mask, primal and dual values; all listed methods, options and layouts, at bounded sizes.',
  why='Tests solve one small problem per method; single-channel dictionaries with multi-channel signals, masks with partial axes and penalty changes are rarely or never run.',
  files=['sporco/admm/cmod.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py'],
  mech=[('x step solves', 'sporco/admm/ccmod.py, ccmodmd.py: xstep'), ('projection', 'sporco/admm/ccmod.py: ystep'), ('mask block', 'sporco/admm/ccmodmd.py'), ('channel/signal merging', 'sporco/admm/ccmod.py: setcoef')]),
 dict(id='P14', title='Proximal gradient dictionary update uses the gradient of its data fidelity',
  statement='For the standard, weighted, convolutional and masked proximal gradient dictionary update solvers, the gradient and Hessian are those of the documented data fidelity term, one iteration from any state is a gradient step followed by projection onto the documented constraint set, and the reported data fidelity and constraint violation are the documented values. The returned dictionary and reconstructions correspond to the current iterate or given argument. This holds for all channel, signal, filter and mask layouts and for replaced coefficients.',
  over=['inputs', 'configurations'], q='All signals, masks, dictionaries, evaluation points and directions; all listed layouts, at bounded sizes.',
  why='Tests only check that a random problem decreases its objective for one layout.',
  files=['sporco/pgm/cmod.py', 'sporco/pgm/ccmod.py'],
  mech=[('gradient and Hessian', 'sporco/pgm/*: grad_f, hessian_f'), ('projection', 'sporco/pgm/*: prox_g'), ('functional', 'sporco/pgm/*: obfn_f, obfn_cns')]),
 dict(id='P15', title='Parallel solvers give the serial result under every task interleaving',
  statement='For the parallel sparse coding and parallel consensus dictionary learning solvers, the result of every parallel phase is the same for every assignment of tasks to workers and every interleaving of their memory accesses: no task reads or writes data that another task of the same phase writes, and every worker sees the current penalty parameters, dictionary and coefficients. One iteration from any state computes the same subproblem minimisers, relaxation, dual updates and statistics as the documented sequential algorithm, with the same options honoured. This holds for every layout of channels, signals and filters and every number of dictionary groups or workers.',
  over=['schedules', 'inputs', 'configurations', 'histories'], q='All interleavings of the tasks of every parallel phase (values written by other tasks are arbitrary), all signal, primal and dual values, all listed layouts and options, at bounded sizes and one or two iterations.',
  why='Tests run the solvers with whatever schedule the machine happens to produce and compare only the converged result for one layout.',
  files=['sporco/admm/parcbpdn.py', 'sporco/dictlrn/prlcnscdl.py'],
  mech=[('shared buffers', 'sporco/admm/parcbpdn.py, sporco/dictlrn/prlcnscdl.py: mpraw_as_np, init_mpraw'), ('parallel phases', 'sporco/admm/parcbpdn.py: par_*; sporco/dictlrn/prlcnscdl.py: cbpdn_*, ccmod_*'), ('iteration statistics', 'sporco/dictlrn/prlcnscdl.py: solve, evaluate')]),
 dict(id='P16', title='Dictionary learning alternates and reports as documented',
  statement='Every batch dictionary learning class starts from the projected initial dictionary and alternates the documented coding and dictionary update steps with the given options, each step receiving exactly the variables the other one produced; callbacks, iteration limits and resumption act at the documented points, and statistics report the values of the named step or the documented functional at the current dictionary and coefficients, including masks and weights. Online dictionary learning projects the result of a gradient step of the documented (masked) data fidelity with the documented decreasing step size, for every sequence of training signals of varying size, number of channels and number of signals.',
  over=['inputs', 'histories', 'configurations'], q='All results of the component solvers (arbitrary values) or all signals, all listed combinations of coding and update methods, masks, options and layouts, sequences of up to three calls, at bounded sizes.',
  why='Tests only check that learning runs for one or two layouts; a stale dictionary, swapped statistics or a gradient with mixed channels still produces a plausible dictionary.',
  files=['sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/cbpdndl.py', 'sporco/dictlrn/cbpdndlmd.py', 'sporco/dictlrn/bpdndl.py', 'sporco/dictlrn/wbpdndl.py', 'sporco/dictlrn/onlinecdl.py', 'sporco/dictlrn/common.py'],
  mech=[('alternation', 'sporco/dictlrn/dictlrn.py: DictLearn.solve, post_xstep, post_dstep'), ('statistics mapping', 'sporco/dictlrn/common.py, dictlrn.py: IterStatsConfig.iterstats'), ('functional', 'sporco/dictlrn/*: evaluate'), ('online update', 'sporco/dictlrn/onlinecdl.py: xstep, dstep, init_vars')]),
 dict(id='P19', title='TV, robust PCA, spline and plug-and-play iterations are exact',
  statement='From any primal and dual state, one iteration of every total variation denoising and deconvolution, robust principal component, spline smoothing and plug-and-play (alternating direction and proximal gradient) solver computes the exact minimiser of each documented subproblem (or applies the user step to the documented argument), the documented relaxation and dual update, and the statistics, constraint operators and residuals of the documented problem. Initialisation is consistent with the documented optimality condition. This holds for every choice of gradient axes, channel axis, weights, warm start and penalty parameter.',
  over=['inputs', 'configurations', 'histories'], q='All signal, primal and dual values and user step results; all listed solver, option and axis layouts, at bounded sizes.',
  why='Tests run the solvers on one image layout with default weights and compare only the converged objective; axis positions, weighted and vector variants and warm starts are rarely run.',
  files=['sporco/admm/tvl1.py', 'sporco/admm/tvl2.py', 'sporco/admm/rpca.py', 'sporco/admm/spline.py', 'sporco/admm/ppp.py', 'sporco/pgm/ppp.py', 'sporco/signal.py'],
  mech=[('x step solves', 'sporco/admm/tvl1.py, tvl2.py, spline.py: xstep'), ('gradient operators', 'sporco/signal.py: grad, gradT, gradient_filters'), ('nuclear norm shrinkage', 'sporco/admm/rpca.py: xstep, ystep'), ('user denoiser', 'sporco/admm/ppp.py, sporco/pgm/ppp.py')]),
 dict(id='P18', title='Signal operators, image metrics and interpolation equal their definitions',
  statement='Gradient operators and their adjoints, gradient filters, Tikhonov filtering, Gaussian windows, local contrast normalisation, colour conversion, random noise and masks, the image quality metrics, demosaicing, Lanczos interpolation filters and robust (least absolute and least maximum deviation) regression return exactly what they document, for any axis, image size, number of dimensions and data type (including narrow integer types). Random masks and noise have the documented value for every outcome of the generator. Arguments are not modified.',
  over=['inputs', 'configurations'], q='All array values, all outcomes of the random generator, all regression right hand sides and competitors; all listed axes, sizes and types, at bounded sizes.',
  why='Tests check a few of these functions on one floating point image; adjointness, integer wrap around, image stacks and borders are not compared with an independent definition.',
  files=['sporco/signal.py', 'sporco/metric.py', 'sporco/interp.py'],
  mech=[('difference operators', 'sporco/signal.py: grad, gradT, gradient_filters'), ('filters', 'sporco/signal.py: tikhonov_filter, local_contrast_normalise'), ('metrics', 'sporco/metric.py'), ('linear programs', 'sporco/interp.py: lstabsdev, lstmaxdev'), ('demosaicing', 'sporco/interp.py: bilinear_demosaic')]),
 dict(id='P17', title='Solver options are a checked tree of independent defaults',
  statement='Options given to any solver replace exactly the named defaults at any depth, in any order of construction, update and path or nested assignment; everything else keeps its default, and unknown keys and values in place of subtrees are rejected at any depth with the full key path, leaving the options unchanged. Option instances, user dictionaries and the defaults of every class are independent: changing or defining one never alters another. The dictionary learning options are those of the selected sparse coding and dictionary update methods, whatever was used before.',
  over=['inputs', 'configurations', 'histories'], q='All leaf values, every subset of keys and every position of an invalid key; every leaf and node of every solver Options class.',
  why='Tests set a few options of a few solvers; isolation between classes, instances and successive updates and the position of an error is not tested.',
  files=['sporco/cdict.py', 'sporco/admm/*.py', 'sporco/pgm/*.py', 'sporco/dictlrn/*.py'],
  mech=[('constrained dictionaries', 'sporco/cdict.py: ConstrainedDict, keycmp'), ('solver options', 'sporco/admm/*.py, sporco/pgm/*.py: Options'), ('method selection', 'sporco/dictlrn/cbpdndl.py, cbpdndlmd.py: Options')]),
 dict(id='P20', title='Grid search, timers, tiling and file access behave as documented',
  statement='A grid search returns the full table of function values in grid order and an optimum of it, with its parameter values and indices, for scalar and vector functions, undefined values, any number of processes and any distributed rank count, where the parts of the ranks partition the grid. Timers report the accumulated and current interval for every sequence of start, stop, reset and query operations on any labels; dictionary tilings contain every filter at its place and size. Network and image access, solver attribute initialisation and status formats follow the documented retry, precedence and conversion rules.',
  over=['inputs', 'schedules', 'histories', 'faults'], q='All function values, clock readings, filter and pixel values and value orders; all grids, rank counts up to 4 (partition: any grid length up to 1000), operation sequences up to 3 (4), fault sequences and option combinations listed.',
  why='Tests search one grid in one process, time one interval and never meet a failing network, an undefined value or an uneven distribution.',
  files=['sporco/util.py', 'sporco/mpiutil.py', 'sporco/common.py'],
  mech=[('grid search', 'sporco/util.py, sporco/mpiutil.py: grid_search, _get_rank_limits'), ('timers', 'sporco/util.py: Timer, ContextTimer'), ('tiling', 'sporco/util.py: tiledict'), ('access', 'sporco/util.py: netgetdata, ExampleImages'), ('solver base', 'sporco/common.py: set_attr, set_dtype, solve_status_str')]),
]
NA = [
 dict(id='N01', title='Iterative solvers converge to the minimiser within the stated tolerance',
  statement='For convex problems and documented parameter ranges, iterating a solver until its stopping tolerances are met yields a solution whose objective is within a bounded distance of the optimum, and floating point rounding does not change the solution beyond the order of the working precision.',
  over=['inputs', 'histories'], q='All problems, all iteration counts, floating point arithmetic.', why='Tests run a few random problems to convergence.',
  files=['sporco/admm/admm.py', 'sporco/pgm/pgm.py'], mech=[('iteration', 'sporco/admm/admm.py, sporco/pgm/pgm.py: solve')],
  reason='Unbounded iteration counts and floating point rounding of FFT based iterations are out of reach of bounded symbolic execution; the exactness of each single step, residual and stopping decision is claimed instead (P06-P16, P19).'),
 dict(id='N02', title='Plots show the data they are given',
  statement='Figures, contours, surfaces and image views drawn by the plotting functions show exactly the given data with the given options, and key and mouse bindings act on the figure they are attached to.',
  over=['inputs', 'histories'], q='All data, options and event sequences.', why='Tests only check that the functions run.',
  files=['sporco/plot.py'], mech=[('plots', 'sporco/plot.py')],
  reason='The effect is produced inside the matplotlib rendering code, which cannot be encoded; a model of it would only restate the arguments passed.'),
 dict(id='N03', title='GPU variants give the same results as the CPU solvers',
  statement='Every function and solver used through the GPU interface returns, for the same arguments, the same values as its CPU counterpart.',
  over=['inputs', 'configurations'], q='All arguments, all supported modules.', why='Tests need a GPU and are skipped without it.',
  files=['sporco/cupy/__init__.py', 'sporco/cuda.py'], mech=[('module patching', 'sporco/cupy/__init__.py'), ('CUDA solvers', 'sporco/cuda.py')],
  reason='The code runs in cupy and compiled CUDA libraries which are not installed; their kernels are not part of the repository, so there is nothing here to encode or to replay on.'),
]
