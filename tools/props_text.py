E, L, O, C = 'tractor/engine.py', 'tractor/lsqr_optimizer.py', 'tractor/optimize.py', 'tractor/constrained_optimizer.py'
D, S, G, U = 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/gpu_optimizer.py', 'tractor/utils.py'

prop('C01', 'Parallel evaluation equals serial evaluation for every schedule and failure',
     'Model images, derivatives, log-probabilities and optimization steps computed through a worker pool '
     'equal those computed serially, whatever the order, grouping and placement in which the pool runs its tasks. '
     'If a task or worker fails, the caller sees the failure rather than a wrong answer. '
     'After success or failure the engine still holds the same images, sources, parameter values and frozen flags '
     'as before (plus the accepted step, if any), and the same request then succeeds once the faults stop.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every dispatch order, chunking, worker assignment and worker/task failure, for every scene and frozen-parameter layout',
     'no existing test uses a pool at all; one real pool run samples one schedule and no failures',
     ['tractor/multiproc.py', E], [('map of pickled (engine, image) and (source, image) tasks', 'tractor/multiproc.py TractorMultiprocMixin.getDerivs/getModelImages'),
                                   ('pickled engine state', 'tractor/engine.py Tractor.__getstate__/__setstate__')],
     state=[('pool jobs', 'outstanding chunks and their results')], observe='returned arrays, parameter vector, images list', hook=False)

prop('C02', 'A checkpointed engine resumes identically in a fresh process',
     'An engine (images, sources, priors, frozen flags, masks, options and optimizer) that is saved by pickling between any two operations '
     'and restored in a process that shares no memory with the first continues exactly as the uninterrupted one would: same parameters, '
     'frozen flags, models, likelihoods, derivatives and optimization steps. '
     'A truncated or damaged checkpoint is reported as an error instead of yielding a partially restored engine.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every operation history, every point at which the process may be saved, killed and restored, and every truncation of the saved bytes',
     'the tests pickle one small engine once and look at one number; they never kill the process, never restore with frozen parameters, '
     'masks, bounds or options, and never continue a fit after restoring',
     [E, U, G, 'tractor/psf.py', 'tractor/psfex.py', 'tractor/brightness.py', 'tractor/wcs.py', 'tractor/cache.py', 'tractor/multiproc.py'],
     [('engine pickle state', 'tractor/engine.py Tractor.__getstate__/__setstate__'), ('named-parameter rebinding on unpickle', 'tractor/utils.py NamedParams.__new__'),
      ('component pickle state', 'tractor/psf.py, tractor/psfex.py, tractor/brightness.py, tractor/wcs.py, tractor/gpu_optimizer.py')],
     observe='results of the same operations before and after restore', hook=False)

prop('C03', 'Caching rendered models never changes a result',
     'An engine that caches rendered source models produces, for every model image and likelihood, what an engine without a cache produces, '
     'whatever history of parameter, image, calibration and mask changes, cache evictions, clears, disabling and failed evaluations precedes the request. '
     'Looked-up values are always ones that were stored under that same model, the cache never exceeds its capacity, and it drops the least recently used entry first.',
     ['histories', 'fault_sequences', 'configurations'],
     'every history of changes and evaluations, every cache capacity, every failure of an evaluation part way',
     'no test uses the cache; staleness needs a particular change-evaluate-change-back sequence or a key collision',
     ['tractor/cache.py', 'tractor/image.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/utils.py', 'tractor/wcs.py', 'tractor/sky.py', 'tractor/splinesky.py'],
     [('cache key of image and source state', 'tractor/cache.py TractorCacheMixin.getModelPatch, hashkey() methods'), ('LRU cache', 'tractor/cache.py Cache')],
     state=[('cache', 'model patches keyed by image and source state')], observe='model images and likelihoods', hook=False)

prop('C04', 'Evaluation depends only on the current model, never on evaluation history',
     'Rendering a model, its derivatives, its likelihood or its prior gives the same result no matter what was evaluated, cached, or interrupted by an error before, '
     'as in a fresh process holding the same images and sources. '
     'Evaluating changes no parameter, frozen flag, pixel, mask or calibration.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of evaluations at different positions, shapes, masks, calibrations and parameter values, including evaluations that fail part way',
     'tests evaluate each model once, in one order, with cold caches',
     ['tractor/psf.py', 'tractor/psfex.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/sersic.py', 'tractor/mixture_profiles.py', E, 'tractor/motion.py'],
     [('Fourier-transform caches', 'tractor/psf.py PixelizedPSF.getFourierTransform'), ('shared mixtures', 'tractor/psf.py getCircularMog'),
      ('position caches', 'tractor/psfex.py PixelizedPsfEx/CachingPsfEx'), ('step-and-restore derivatives', 'tractor/galaxy.py getParamDerivatives, tractor/engine.py getDerivs')],
     observe='returned patches, images and numbers', hook=False)

prop('C05', 'An optimization step never makes the fit worse and reports what it did',
     'After any optimization step or loop the log-posterior is not lower than before, the reported improvement is the actual one, and if no improvement is reported '
     'every parameter is exactly what it was; frozen parameters never change. '
     'This holds for every optimizer, also when evaluations of trial points return NaN or infinities or a linear solve fails or returns garbage. '
     'Once such faults stop, further steps make progress again.',
     ['fault_sequences', 'inputs', 'histories', 'configurations'],
     'every scene, optimizer, option combination and sequence of numerical faults in trial evaluations and linear solves',
     'tests run a few fits that converge and check the final numbers; no trial point fails in them',
     [O, L, C, D, S, G, 'tractor/ceres_optimizer.py'],
     [('line search and rollback', 'tractor/optimize.py tryUpdates; tractor/constrained_optimizer.py; tractor/gpu_optimizer.py'),
      ('loop termination', 'tractor/optimize.py optimize_loop')],
     observe='parameters and log-posterior after each step', hook=False)

prop('C06', 'Bounded fits never leave their bounds or maximum steps',
     'In a fit with parameter bounds and maximum step sizes, every point at which the model is evaluated as a candidate, and the point finally accepted, lies within the bounds, '
     'and no parameter moves by more than its maximum step in one step. '
     'A caller that vetoes a trial point gets the starting parameters or an earlier trial point back, never the vetoed one; a veto after a completed step ends the fit there. '
     'This holds also when trial evaluations or the solver fail.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every placement of bounds and step limits relative to the optimum, every set of active bounds, veto time and numerical fault',
     'one test runs one bounded fit; violating a bound needs a particular combination of active bounds and step limits',
     [C, D, S, G, U, 'tractor/ceres_optimizer.py'],
     [('step clipping', 'tractor/constrained_optimizer.py tryUpdates'), ('bounds bookkeeping', 'tractor/utils.py getLowerBounds/getUpperBounds/getMaxStep')],
     observe='every parameter vector seen by the log-prior/model evaluation', hook=False)

prop('C07', 'A failed or interrupted operation leaves the engine as it was',
     'If an optimization step, derivative evaluation or forced-photometry fit is cut short by an exception or user interrupt raised from a model, prior, calibration or solver at any point, '
     'the exception reaches the caller and the parameters, frozen flags, images, pixels, masks and numerical-error settings are those from before the operation '
     '(for a multi-step loop, those after its last completed step). '
     'Later operations then give the same results as if the failed one had never been tried.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every callback at which the operation can be interrupted, every exception type, every optimizer',
     'no test raises from inside an evaluation; each interrupt point is a different path',
     [E, O, L, C, D, S, G, 'tractor/ceres_optimizer.py', 'tractor/ceres-tractor.cc', 'tractor/galaxy.py', 'tractor/pointsource.py'],
     [('temporary parameter stepping', 'tractor/optimize.py tryUpdates, tractor/engine.py getDerivs, tractor/galaxy.py getParamDerivatives'),
      ('temporary image lists and error state', 'tractor/lsqr_optimizer.py')],
     observe='engine state after the exception, results of later operations', hook=False)

prop('C08', 'Forced photometry returns the weighted least-squares fluxes and nothing else',
     'Forced photometry sets the source brightnesses (and sky levels, if requested) to the weighted least-squares solution for the given images, and the reported inverse variances and fit statistics are those of that solution, '
     'independently of starting values, source and image order, and solver. '
     'No other parameter, pixel or image list changes, and if the solver fails the starting brightnesses and images are all back in place.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every scene, region of interest, option and solver, every solver failure and interrupt point',
     'tests check two scenes without faults; a transposed index or a lost restore needs particular overlaps, regions or failures',
     [O, L, 'tractor/ceres_optimizer.py', 'tractor/ceres-tractor.cc', E],
     [('unit-flux models and least squares', 'tractor/lsqr_optimizer.py _lsqr_forced_photom'), ('Ceres forced photometry', 'tractor/ceres_optimizer.py'),
      ('shared set-up, statistics and variances', 'tractor/optimize.py forced_photometry')],
     observe='fluxes, inverse variances, fit statistics, engine state', hook=False)

prop('C09', 'The shared model cache is consistent under concurrent use',
     'When several clients read and write one cache concurrently, every read returns a value some client stored under exactly that key and not yet overwritten when the read began, or reports a miss; '
     'an entry present before and throughout a read, with no eviction or clearing, is found. '
     'The cache never exceeds its capacity and no operation fails or loses entries because of another.',
     ['schedules', 'histories'], 'every interleaving of concurrent reads and writes, every capacity',
     'no test touches the cache from two threads, and thread timing would sample only a few interleavings',
     ['tractor/cache.py', 'tractor/mpcache.py'], [('LRU get/put', 'tractor/cache.py Cache.__getitem__/__setitem__'), ('cache served to other processes', 'tractor/mpcache.py')],
     observe='values returned to clients and cache length', hook=False)

prop('C10', 'Concurrent rendering from shared objects equals serial rendering',
     'Threads that render models, evaluate likelihoods, or compute derivatives of their own sources at the same time from shared images, PSFs and sources get what each would get alone, whatever the interleaving.',
     ['schedules', 'inputs'], 'every interleaving of rendering calls on shared objects, cold or warm caches',
     'no test renders from two threads; the windows are a few bytecodes wide',
     ['tractor/psf.py', 'tractor/psfex.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/mixture_profiles.py', 'tractor/cache.py', E],
     [('caches filled during rendering', 'tractor/psf.py fftcache, getCircularMog; tractor/psfex.py'), ('shared read-only objects', E)],
     observe='arrays returned to each thread', hook=False)

prop('C11', 'Image loading with retries returns the right image or an error, never a mixture',
     'Loading a survey image or catalogue whose component files may be missing, short, corrupt or arrive late returns exactly what a load from intact files returns, or raises an error. '
     'It never returns an image assembled from partial data or from files of another field or band. '
     'With retrying on, a failed first attempt re-fetches every component file once and tries again, and succeeds if the files are then good; a load that finds good files fetches nothing, and a user interrupt reaches the caller.',
     ['fault_sequences', 'inputs'], 'every sequence of fetch and read failures of every component file, every region of interest',
     'the tests load intact local files only',
     ['tractor/sdss.py', 'tractor/imageutils.py'], [('read, re-fetch, re-read', 'tractor/sdss.py get_tractor_image_dr8'), ('check, fetch, read of catalogues', 'tractor/sdss.py _check_sdss_files, _get_sources')],
     observe='returned image and metadata, sources, fetch log', hook=False)

prop('C12', 'Tile loading fails over between directories as a unit',
     'A tile is loaded completely from the first directory in the search path that holds all of its files, with pixels, weights, masking and calibration belonging to the requested region and band; '
     'if no directory holds them all an error is raised, and if the region misses the tile nothing is returned. '
     'Unreadable or truncated files raise an error instead of yielding a wrong image.',
     ['fault_sequences', 'configurations', 'inputs'], 'every assignment of present, missing and damaged files to directories, every region and band',
     'tests have no tile files at all', ['wise/unwise.py'], [('directory search and cut-out', 'wise/unwise.py get_unwise_tractor_image')],
     observe='returned image', hook=False)

prop('C13', 'Saved models and images read back identically or not at all',
     'A PSF model, sky model or image that was saved and whose save completed reads back to one that gives identical values everywhere, to the precision of the stored numbers (single-precision PSF and sky grids). '
     'After a failed, short or interrupted write, or when the file is truncated or lost, reading raises an error, or gives the complete new version or the untouched previous one, never a different model. '
     'A failed save or load leaves the in-memory object unchanged.',
     ['crash_points', 'fault_sequences', 'inputs'], 'every model content, every point at which the write fails or the process dies, every truncation',
     'tests round-trip one sky and one PSF with a perfect disk',
     ['tractor/psfex.py', 'tractor/splinesky.py', 'tractor/sky.py', 'tractor/image.py', 'tractor/utils.py', 'tractor/basics.py'],
     [('FITS serialisation', 'write_fits/from_fits in tractor/sky.py, tractor/splinesky.py, tractor/psfex.py; toFits/readFromFits in tractor/image.py')],
     observe='values of the re-read model', hook=False)

prop('C14', 'Results do not depend on clock, hash seed, random state or logging',
     'Rendering, likelihoods, optimization and forced photometry give identical results whatever the wall clock and CPU clock do (jumps, stalls, backwards), whatever the hash seed, object addresses, global random state and logging level, '
     'and leave the global random state, numerical-error settings and the logging configuration untouched.',
     ['configurations', 'schedules', 'inputs'], 'every clock behaviour, hash seed, random state and logging level',
     'tests run under one seed, clock and log level',
     [E, O, L, D, S, G, 'tractor/galaxy.py', 'tractor/psf.py'], [('clock reads', 'tractor/gpu_optimizer.py, tractor/ceres_optimizer.py, tractor/optimize.py'), ('set and dict iteration', L)],
     observe='results of identical operations in differing environments', hook=False)

prop('C15', 'Parameter containers keep values, names, limits and frozen flags in step',
     'After any sequence of freezing, thawing, setting, appending, removing, copying and bounding on nested model objects, the exposed parameter vector, names, step sizes, bounds, maximum steps and priors all have the same length and order, and each entry refers to the same underlying value; '
     'setting a vector changes exactly the thawed values and reading returns what was set. '
     'An operation rejected for a wrong vector length, index, name or member changes nothing.',
     ['histories', 'fault_sequences'], 'every sequence of container operations, including ones rejected with an error',
     'tests check a handful of short scripted sequences', [U, 'tractor/basics.py', 'tractor/brightness.py', 'tractor/ellipses.py', 'tractor/image.py', E],
     [('frozen/thawed indexing', 'tractor/utils.py NamedParams, ParamList, MultiParams'), ('Gaussian priors', 'tractor/utils.py GaussianPriorsMixin')],
     observe='parameter API of nested containers', hook=False)

prop('C16', 'The batched optimizer is equivalent to the reference and survives device faults',
     'The batched (GPU-style) optimizer takes the same step as the reference dense optimizer within single-precision tolerance, and reusing per-image quantities between steps changes nothing. '
     'If the device runs out of memory or a batched solve fails at any call, the engine keeps its previous parameters and the following operations give correct results.',
     ['fault_sequences', 'inputs', 'histories'], 'every scene, mode and sequence of device failures at any array call',
     'the test compares a few scenes without faults', [G, S, 'tractor/psf.py'], [('batched derivative/solve/line search', 'tractor/gpu_optimizer.py GpuOptimizer'), ('cached image parameters', 'tractor/gpu_optimizer.py')],
     observe='parameters, update vectors, log-posterior', hook=False)

# ---- pure functions: not simulation targets
PURE = 'no existing test covers more than a handful of inputs'
prop('N01', 'Rendered models conserve flux',
     'The rendered model of a source contains the source\'s total flux (within the stated truncation) wherever it is placed and however it is shaped, and vanishes outside its mask.',
     ['inputs'], 'every position, shape, PSF and mask', PURE, ['tractor/psf.py', 'tractor/galaxy.py', 'tractor/mixture_profiles.py'], [('rendering', 'getPointSourcePatch, getModelPatch')])
prop('N02', 'Analytic derivatives match the model',
     'Each parameter derivative equals the limit of the finite difference of the rendered model in that parameter.',
     ['inputs'], 'every source, PSF and parameter value', PURE, ['tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/sersic.py'], [('derivatives', 'getParamDerivatives')])
prop('N03', 'Gaussian-mixture algebra is exact',
     'Convolving, shifting and evaluating mixtures agrees with the defining sums.',
     ['inputs'], 'every mixture', PURE, ['tractor/mixture_profiles.py', 'tractor/mp_fourier.i', 'tractor/mix.i'], [('mixtures', 'MixtureOfGaussians')])
prop('N04', 'World-to-pixel and pixel-to-world are inverse',
     'Converting a position to pixels and back gives the position, for every coordinate system.',
     ['inputs'], 'every position', PURE, ['tractor/wcs.py'], [('WCS', 'positionToPixel/pixelToPosition')])
prop('N05', 'Brightness conversions are consistent',
     'Converting between magnitudes, fluxes and counts and back gives the starting value.',
     ['inputs'], 'every brightness and calibration', PURE, ['tractor/brightness.py', 'tractor/basics.py'], [('conversion', 'brightnessToCounts')])
prop('N06', 'Ellipse parametrisations describe the same shape',
     'The different ellipse parametrisations convert into each other without changing the transformation they define.',
     ['inputs'], 'every ellipse', PURE, ['tractor/ellipses.py'], [('ellipses', 'EllipseE, EllipseESoft')])
prop('N07', 'Sub-images see the same model',
     'The model of a sub-image equals the corresponding part of the model of the full image.',
     ['inputs'], 'every region', PURE, ['tractor/image.py', 'tractor/shifted.py', 'tractor/psfex.py'], [('shifted calibrations', 'getSubImage, ShiftedPsf, ShiftedWcs')])

NA = {k: 'pure function of its inputs: no schedule, clock, I/O, fault or history for a simulator to decide; generating inputs alone would not be deterministic simulation'
      for k in ('N01', 'N02', 'N03', 'N04', 'N05', 'N06', 'N07')}

SAMPLE = ' Sampling, not proof; trusts numpy/scipy/fitsio, the Python interpreter and the seed-controlled stubs named in the evidence.'
TECH = {
    'C01': ('seeded pool scheduler over real worker processes with worker death, task failure and interrupts; serial engine as the oracle', 'Seeded random search over pool schedules and failures on small random scenes.' + SAMPLE),
    'C02': ('checkpoint/kill/restart at seeded points in a fresh process, truncated checkpoints; uninterrupted twin as the oracle', 'Seeded random histories with restarts in a process that shares no memory.' + SAMPLE),
    'C03': ('seeded histories with tiny caches, evictions and injected evaluation failures; uncached twin and LRU reference model as oracles', 'Seeded random histories.' + SAMPLE),
    'C04': ('seeded evaluation histories with injected failures; cold evaluation of the same model in a fresh process as the oracle', 'Seeded random histories.' + SAMPLE),
    'C05': ('seeded numerical-fault injection (NaN/inf trial values, failing or wrong solves) into every optimizer; independent log-posterior as the oracle', 'Seeded random scenes, options and fault sequences.' + SAMPLE),
    'C06': ('seeded bounds/step limits/vetoes/numeric faults with every evaluated point monitored', 'Seeded random scenes, bounds and faults.' + SAMPLE),
    'C07': ('seeded exception/interrupt injection at every callback of an operation; pre-operation snapshot and fault-free twin as oracles', 'Seeded random scenes, operations and crash points.' + SAMPLE),
    'C08': ('seeded solver faults and interrupts in forced photometry; independent normal-equations solution as the oracle', 'Seeded random scenes, options and faults.' + SAMPLE),
    'C09': ('seeded bytecode-level thread scheduler over the real cache; history check against a register/LRU model', 'Seeded random interleavings of 2-4 clients.' + SAMPLE),
    'C10': ('seeded line/bytecode-level thread scheduler over real rendering code; serial results as the oracle', 'Seeded random interleavings of 2-3 threads.' + SAMPLE),
    'C11': ('simulated file store with seeded missing/short/corrupt/late files; fault-free load as the oracle', 'Seeded random fault sequences.' + SAMPLE),
    'C12': ('simulated tile directories with seeded missing/truncated files and read errors; reference path-search and cut-out model as the oracle', 'Seeded random directory states and regions.' + SAMPLE),
    'C13': ('simulated disk with seeded ENOSPC, short, torn and lost writes, crash and truncation; in-memory values as the oracle', 'Seeded random models and disk faults.' + SAMPLE),
    'C14': ('simulated clock, hash seed, random state and logging; run under a plain environment as the oracle', 'Seeded random environments.' + SAMPLE),
    'C15': ('seeded operation histories with rejected operations against a flat reference model', 'Seeded random histories.' + SAMPLE),
    'C16': ('simulated device (array module) failing at seeded calls; reference optimizer and fault-free twin as oracles', 'Seeded random scenes and device faults.' + SAMPLE),
}
