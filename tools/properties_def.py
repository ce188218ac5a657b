prop('C01', 'Weighted sample statistics equal their definitions',
     'For any set of weighted samples, the reported means, variances, standard deviations, covariances, correlations, '
     'weighted sums and tail quantiles are those of the weighted empirical distribution, for any subset of parameters '
     'given by index, name or array and any restriction to a subset of samples. Rescaling all weights by a constant '
     'changes none of them (except sums), and an integer-weighted sample counts exactly as that many repeats.',
     ['inputs'], 'every sample array, weight array, parameter selection, row restriction and tail fraction',
     'Tests look at a few fixed seeds and a couple of means; nothing checks arbitrary weights, row restrictions or quantiles.',
     [G + 'chains.py'], [('weighted moments and tail counting', G + 'chains.py WeightedSamples.mean/var/cov/confidence')],
     'runtime reference-model monitor over generated workloads',
     'every call result compared with an independent weighted-moment / counting model on the explored inputs')

prop('C02', 'Selecting rows keeps rows intact, in order and in their own chain',
     'Removing burn-in, filtering, thinning, and picking unit-weight samples only ever drop or re-count rows: each '
     'surviving row keeps its own parameter values, likelihood and (where not re-counted) weight, rows stay in order, and the number kept is '
     'what was asked for. Samples combined from several chains still split back into exactly the surviving rows of each chain.',
     ['inputs', 'histories'], 'every sample set, chain structure, and sequence of selection operations',
     'Tests never thin or filter multi-chain samples, nor chain several selections.',
     [G + 'chains.py', G + 'mcsamples.py'],
     [('burn removal, filter, thin, chain offsets', G + 'chains.py WeightedSamples/Chains'),
      ('unit-weight output', G + 'mcsamples.py MCSamples.makeSingleSamples')],
     'runtime conservation monitor with uniquely tagged rows over operation histories',
     'rows carry unique ids; conservation, order and chain membership are decided after every operation of each history')

prop('C03', 'Importance re-weighting and cooling follow the stated likelihood change',
     'Adding log-likelihoods to samples multiplies each weight by the corresponding likelihood factor up to one common '
     'constant and adds to the stored log-likelihoods; cooling does the same for a power of the likelihood. '
     'Re-weightings compose and invert, and no other sample object or caller array is affected.',
     ['inputs', 'histories'], 'every sample set, likelihood array, temperature, and sequence of re-weightings',
     'No test re-weights or cools samples at all.',
     [G + 'chains.py'], [('importance weights', G + 'chains.py WeightedSamples.reweightAddingLogLikes/cool')],
     'runtime reference-model and aliasing monitor over re-weighting histories',
     'weights compared up to one constant with the explicit likelihood model after every step; aliases snapshotted')

prop('C04', 'Loading a chain root reads exactly the right rows of the right files',
     'Loading samples from a root name uses every chain file of that root and no other file, in a result whose rows, '
     'weights, likelihoods and columns are those in the files less the configured burn-in of each chain, with comments '
     'ignored. Burn-in settings in the chain properties override analysis settings, and excluded or out-of-range chain '
     'numbers are not read.',
     ['inputs', 'configurations'], 'every directory content, numbering, separator, burn-in setting and file layout',
     'Tests load one root with three clean files and one burn-in fraction.',
     [G + 'chains.py', G + 'mcsamples.py'],
     [('file matching', G + 'chains.py chainFiles'), ('load and burn-in', G + 'mcsamples.py MCSamples.readChains')],
     'runtime reference-model monitor of file loads with uniquely tagged rows',
     'rows carry unique ids written to files; the loaded multiset and order are decided against an independent reader')

prop('C05', 'Samples survive being written to disk and read back',
     'Samples written as text or binary and loaded again give the same rows, weights, likelihoods (to the stated text precision), '
     'parameter names, labels, derived flags, prior ranges, fixed values, sampler type and label, with no burn-in removed '
     'a second time. Writing separate chains gives one file per chain with the same rows in the same chains.',
     ['inputs', 'configurations'], 'every sample set, chain structure, metadata and output option',
     'Tests only write three clean chains and check a few statistics.',
     [G + 'chains.py', G + 'mcsamples.py', G + 'paramnames.py', G + 'parampriors.py'],
     [('text output', G + 'chains.py saveAsText, mcsamples.py saveTextMetadata/saveChainsAsText')],
     'round-trip monitor over generated samples and metadata',
     'full state compared field by field after every save/load on the explored inputs')

prop('C06', 'The sample cache never changes what a user gets',
     'Loading a root through the on-disk cache returns the same samples, settings and statistics as loading without '
     'it, whatever was loaded before and with whatever settings. Changed, added or rewritten chain and metadata files are '
     'picked up, and a truncated, unreadable or foreign cache file, or a crash while writing it, never yields wrong or missing results.',
     ['histories', 'crash_points', 'configurations'],
     'every history of loads, settings changes, file edits, cache corruptions and interrupted cache writes',
     'Tests load each root from a fresh temporary directory and never reuse or damage a cache.',
     [G + 'mcsamples.py', G + '__init__.py'],
     [('cache validity', G + 'mcsamples.py loadMCSamples')],
     'history monitor: cached load vs uncached reference load, with injected corruption and crashes',
     'each cached load is compared with an uncached twin; faults are injected at explored points of the cache write')

prop('C07', 'Results always reflect the current samples and settings',
     'After any sequence of edits to a sample object (filtering, thinning, re-weighting, adding parameters, changing '
     'ranges or settings) every later query gives the same answer as a newly built object with the same samples and '
     'settings. Queries never change later answers, and a copy is independent of its original.',
     ['histories'], 'every interleaving of modifying operations and queries on an object and its copies',
     'Tests query freshly built objects; stale cached densities, limits or moments would pass.',
     [G + 'mcsamples.py', G + 'chains.py'],
     [('cache invalidation', G + 'chains.py _weightsChanged/needs_update, mcsamples.py updateBaseStatistics')],
     'differential history monitor: long-lived object vs freshly rebuilt twin after every step',
     'every query result in each history is compared with a fresh twin built through the public constructor')

prop('C08', 'One-dimensional densities are faithful to the sample distribution',
     'The density for a parameter is non-negative, peaks at one, covers the samples, stops at hard prior limits that the samples reach '
     'without an artificial dip there, and agrees with the kernel-smoothed weighted sample distribution for the given smoothing and correction settings. '
     'It approaches the true distribution as samples increase, and moves with the samples under shifts, rescalings and reflections and '
     'does not depend on overall weight scale.',
     ['inputs', 'configurations'], 'every sample set, hard-limit combination, smoothing scale and correction order',
     'Tests check one reflection (currently failing for another reason) and never compare with a known distribution.',
     [G + 'mcsamples.py', G + 'kde_bandwidth.py', G + 'densities.py', G + 'convolve.py'],
     [('1D kernel density', G + 'mcsamples.py get1DDensityGridData'),
      ('bandwidth', G + 'kde_bandwidth.py gaussian_kde_bandwidth_binned')],
     'runtime monitor: direct kernel-sum reference, known-truth error bounds and metamorphic twins',
     'fixed smoothing compared with a direct un-binned reference; automatic smoothing bounded against analytic truths')

prop('C09', 'Two-dimensional densities and contours are faithful to the samples',
     'The joint density of two parameters is non-negative with unit peak, is transposed when the parameters are swapped (up to the choice of automatic smoothing), respects hard limits, '
     'agrees with the kernel-smoothed weighted samples for the given settings, and approaches the true joint distribution. '
     'Contour levels are ordered and the region above each level holds the requested fraction of probability.',
     ['inputs', 'configurations'], 'every parameter pair, correlation, limit combination, smoothing setting and contour fraction',
     'Tests only draw a few 2D plots; no contour mass or symmetry is checked reliably.',
     [G + 'mcsamples.py', G + 'densities.py', G + 'kde_bandwidth.py'],
     [('2D kernel density', G + 'mcsamples.py get2DDensityGridData'), ('contour levels', G + 'densities.py getContourLevels')],
     'runtime monitor: direct kernel-sum reference, contour-mass accounting and metamorphic twins',
     'as C08 in two dimensions; contour masses recomputed independently from the density grid')

prop('C10', 'Credible limits contain the stated probability',
     'Marginalized limits for each parameter are ordered, nested with increasing confidence, inside any hard prior range, and contain '
     'the stated probability of the samples to within smoothing accuracy, with one-tail or no limit reported only where the '
     'posterior is not small at a hard limit. Every way of asking (statistics object, density, table, latex) gives consistent limits.',
     ['inputs', 'configurations'], 'every distribution shape, hard-limit combination, confidence level and tail setting',
     'The only limit test is failing on the base tree and looks at two shapes.',
     [G + 'mcsamples.py', G + 'densities.py', G + 'types.py'],
     [('limit selection', G + 'mcsamples.py _setMargeLimits'), ('equal-density limits', G + 'densities.py Density1D.getLimits')],
     'runtime monitor: probability-mass accounting over reported limits',
     'mass inside each reported interval recomputed from raw samples and density; tags decided from edge density')

prop('C11', 'Fast convolution and correlation equal direct summation',
     'The convolution routines give the same result as direct summation in every mode, for every input length and '
     'kernel size, whether or not intermediate transforms are shared between calls. Auto-correlation arrays equal the '
     'direct lagged sums at every lag.',
     ['inputs', 'histories'], 'every array shape, kernel size, mode and sequence of calls sharing a transform cache',
     'No test calls them directly; a wrong edge or stale transform only perturbs densities slightly.',
     [G + 'convolve.py', G + 'chains.py'], [('FFT convolution', G + 'convolve.py convolve1D/convolve2D/autoConvolve')],
     'runtime reference-model monitor, including call histories through a shared transform cache',
     'every output element compared with an explicit double loop / scipy.signal direct convolution')

prop('C12', 'Convergence diagnostics measure what they claim',
     'The between/within chain variance statistics, split tests, auto-correlation lengths and effective sample numbers reported for a set of '
     'chains equal their published definitions on those chains. They do not depend on chain order or linear re-parameterization, '
     'and the same values appear in the returned text, written file and object results.',
     ['inputs'], 'every set of chains, weights, lengths and parameter scalings',
     'One test checks one statistic to four decimals on one seed.',
     [G + 'mcsamples.py', G + 'chains.py'],
     [('diagnostics', G + 'mcsamples.py getConvergeTests, chains.py getGelmanRubinEigenvalues/getCorrelationLength')],
     'runtime reference-model monitor with metamorphic twins',
     'all reported numbers recomputed independently from raw chains; report text parsed and compared')

prop('C13', 'Parameter names always refer to their own columns and labels',
     'Looking up a parameter by name, number, alias or wildcard always yields that parameter with its own label, derived flag and '
     'sample column, also after parameters are added, deleted as fixed, renamed or re-ordered. Name lists written '
     'to file and read back are unchanged, and adding an existing name or asking for an unknown one is reported rather than silently mis-assigned.',
     ['inputs', 'histories'], 'every name list, alias map, wildcard and sequence of name-changing operations',
     'Tests use two or three plainly named parameters.',
     [G + 'paramnames.py', G + 'chains.py'],
     [('name lists', G + 'paramnames.py ParamList/ParamNames'), ('column index', G + 'chains.py Chains._getParamIndices')],
     'runtime reference-model monitor with tagged columns',
     'columns carry name-derived unique values so every lookup identifies the column it really reached')

prop('C14', 'Hard prior bounds are kept exactly and applied to the right parameter',
     'Lower, upper and fixed bounds given by file, dictionary, list, settings or earlier samples are returned unchanged for exactly the '
     'parameters they were given for, with missing sides meaning unbounded. They survive being saved and re-read, and '
     'parameters that never vary in any chain are removed and recorded as fixed at their value, while varying ones never are.',
     ['inputs', 'configurations'], 'every bound combination, file layout and pattern of constant columns over chains',
     'Tests give simple two-sided ranges to one parameter.',
     [G + 'parampriors.py', G + 'mcsamples.py', G + 'chains.py'],
     [('bounds', G + 'parampriors.py ParamBounds'), ('fixed parameters', G + 'chains.py deleteFixedParams')],
     'round-trip and reference-model monitor',
     'bounds compared with an independent dictionary model after every load/save/set')

prop('C15', 'Settings files mean the same however they are split or re-saved',
     'Reading a settings file gives each key the value with the highest precedence (the file itself and its includes over its '
     'defaults, earlier defaults over later ones), includes are merged wherever they sit, and typed reads return the stated type or fail. '
     'Saving and re-reading gives the same settings, and saving never touches any other file.',
     ['inputs', 'configurations'], 'every nesting of include/default files, key, value, comment, placeholder and typed read',
     'Tests save and load one flat file.',
     [G + 'inifile.py'], [('precedence and typing', G + 'inifile.py IniFile')],
     'runtime reference-model monitor over generated file trees',
     'an independent precedence model decides every key; every file of the tree is hashed around each save')

prop('C16', 'Covariance matrices keep each entry with its pair of parameters',
     'Taking the covariance of samples (all, a sub-set or the non-derived parameters), and saving, loading, rescaling, correlating or merging covariance matrices keeps the entry for every pair of '
     'named parameters (or its exact transform) and leaves the matrix symmetric. Merging never overwrites existing entries '
     'and never invents correlations between parameters that did not share a matrix.',
     ['inputs', 'histories'], 'every pair of matrices, name overlaps, orders and sequence of operations',
     'No test touches covariance matrix objects.',
     [G + 'covmat.py', G + 'mcsamples.py'], [('named covariance', G + 'covmat.py CovMat')],
     'runtime reference-model monitor (dictionary of name pairs)',
     'every pair entry checked against a name-pair dictionary model after each operation')

prop('C17', 'Gaussian mixture models are consistent probability distributions',
     'For a mixture model, density, marginal, conditional, covariance, simulated samples and their log-likelihoods all describe the same '
     'distribution: marginals integrate the joint, joint equals marginal times conditional, samples have the model moments and lie within '
     'any hard limits, and bounds returned are the ones set.',
     ['inputs'], 'every dimension, number of components, weights, covariances and limits',
     'One test checks one conditional of one equal-weight mixture.',
     [G + 'gaussian_mixtures.py'], [('mixtures', G + 'gaussian_mixtures.py MixtureND and subclasses')],
     'runtime reference-model monitor (scipy densities, quadrature, moments)',
     'analytic and quadrature references; simulated moments bounded at many standard errors')

prop('C18', 'Formatted numbers and limits reproduce the underlying values',
     'Every number or error bar printed in latex or text recovers the underlying value to the displayed precision, with the requested '
     'significant figures in the error and the mean and errors shown to matching precision. Signs, orders of magnitude, '
     'asymmetric errors and one-tail limits are never altered by formatting.',
     ['inputs'], 'every value, error pair, magnitude and format setting',
     'Tests compare two fixed strings.',
     [G + 'types.py'], [('number formatting', G + 'types.py NumberFormatter/TableFormatter')],
     'runtime monitor: parse formatted output back and bound the rounding error',
     'each formatted string is parsed independently and compared with the exact inputs')

prop('C19', 'Result files and tables state the computed constraints',
     'Marginalized statistics, likelihood statistics and best-fit files written by the tool read back to the same parameters, means, errors, limits and limit '
     'types, and tables contain one entry per requested parameter with the value belonging to that parameter and result set. '
     'Best-fit files yield each parameter, fixed flag and likelihood contribution they list.',
     ['inputs', 'configurations'], 'every set of parameters, limits, limit types, column layouts and result combinations',
     'Tests check one substring of one table.',
     [G + 'types.py', G + 'mcsamples.py'], [('result objects', G + 'types.py MargeStats/LikeStats/BestFit/ResultTable')],
     'round-trip and table-content monitor',
     'files re-read and tables parsed cell by cell against independently known values')

prop('C20', 'Likelihood statistics and best samples match the stored likelihoods',
     'The best-fit sample, mean and best log-likelihoods, complexity and N-dimensional confidence ranges reported for samples equal their definitions on '
     'the stored likelihoods and weights. Parameter dictionaries for a sample or best fit contain exactly the requested '
     'kinds of parameters with that sample\'s values.',
     ['inputs'], 'every likelihood array, weight array and choice of included parameters',
     'One test checks one best log-likelihood to two decimals.',
     [G + 'mcsamples.py', G + 'types.py'], [('likelihood statistics', G + 'mcsamples.py getLikeStats/getParamSampleDict')],
     'runtime reference-model monitor',
     'all quantities recomputed independently from the raw arrays')

prop('C21', 'The command-line tool reports what the library computes',
     'Running the command-line analysis on a chain root writes statistics, covariance, convergence, thinned and single-sample files '
     'that agree with a library analysis of the same files and settings (burn-in, exclusions, thinning, cooling, limits). '
     'It writes only its own output files in the output directory and generated plot scripts refer to the analysed chain.',
     ['inputs', 'configurations'], 'every chain set and combination of analysis options',
     'One test looks for one number in the printed summary.',
     [G + 'command_line.py', G + 'mcsamples.py'], [('script driver', G + 'command_line.py getdist_script')],
     'differential monitor: command-line outputs vs independent analysis of the same files',
     'every output file parsed and compared with an independent computation over option combinations')

prop('C22', 'Combined samples and principal components preserve probability',
     'Combining two sample sets keeps every row of both for the shared parameters, with total probability of each set in the requested proportion. '
     'Reported principal components are the eigen-decomposition of the (optionally conditional) correlation matrix and '
     'their quoted means, errors and correlations are those of the samples.',
     ['inputs'], 'every pair of sample sets, relative weights, parameter choices and transformations',
     'One test looks for one eigenvalue prefix; nothing combines samples.',
     [G + 'mcsamples.py'], [('combination and PCA', G + 'mcsamples.py getCombinedSamplesWithSamples/PCA')],
     'runtime reference-model monitor with tagged rows; parsed PCA report',
     'row conservation and an independent eigen-decomposition decide each result')

prop('C23', 'Sampler output described by YAML is read with the right parameters',
     'For chains described by a YAML run description, the parameters, labels, aliases, derived flags, prior bounds, fixed values, sampler type and burn-in state '
     'used are those in the description, for every supported way of writing priors and parameters. Reading never changes the description passed in.',
     ['inputs', 'configurations'], 'every parameter block form, prior form, sampler block and alias list',
     'The tests for this need chain files that are absent, so nothing runs.',
     [G + 'cobaya_interface.py', G + 'paramnames.py', G + 'parampriors.py', G + 'yaml_tools.py'],
     [('YAML interpretation', G + 'cobaya_interface.py')],
     'runtime reference-model monitor over generated run descriptions',
     'an independent interpretation of each generated description decides names, bounds and flags')

prop('C24', 'Plots show the requested results of the requested parameters',
     'Each panel of a plot draws, for the parameters on its axes and in the order of the given sample sets, the same densities, contour levels, scatter points, '
     'markers and limits that the sample objects report, with the labels of those parameters and legend entries of those sets. '
     'Without explicit limits the axes span the ranges of the densities drawn (inside the prior of the first set), axes sharing a parameter agree, '
     'what is drawn does not depend on earlier plots or change the samples, settings or arguments, and figures have the size, arrangement and file name asked for.',
     ['inputs', 'configurations'], 'every plot kind, parameter order, number of sample sets and option combination',
     'Tests draw plots and hardly look at what was drawn.',
     [G + 'plots.py'], [('plotter', G + 'plots.py GetDistPlotter')],
     'runtime monitor of drawn artists vs sample-object results',
     'matplotlib artists are read back from every axis and compared with independently requested densities')

prop('C25', 'A chain name resolves to the one chain it names',
     'Looking up a chain by name in a directory tree, list of directories or grid returns the chain with that name when it exists, never '
     'a different one whose name merely starts the same, and reports absence otherwise. Directory priority order is respected and '
     'repeated or changed lookups give current answers.',
     ['inputs', 'histories'], 'every directory tree, set of similar names and order of directories',
     'Tests have a single chain in a single directory.',
     [G + 'chains.py', G + 'chain_grid.py', G + 'plots.py'],
     [('root search', G + 'chains.py findChainFileRoot, chain_grid.py, plots.py MCSampleAnalysis')],
     'runtime reference-model monitor over generated directory trees',
     'an independent file-system model decides each lookup')

prop('C26', 'A grid contains each requested run once under its unique name',
     'Expanding a grid definition gives exactly one run for each requested combination of parameters and data, plus each wanted importance run, minus those skipped, with '
     'unique names and paths built from their parameter and data tags. Any run is found again by its name, by equivalent orderings of tags, and by '
     'filters on parameters, data, importance or group, which return exactly the matching runs.',
     ['inputs', 'configurations'], 'every grid definition, importance filter, skip list and query filter',
     'No test imports the grid code.',
     ['python/paramgrid/batchjob.py', 'python/paramgrid/batchjob_args.py', 'python/paramgrid/gridconfig.py'],
     [('expansion', 'python/paramgrid/batchjob.py batchJob.makeItems'), ('filters', 'python/paramgrid/batchjob_args.py')],
     'runtime reference-model monitor over generated grid definitions',
     'an independent cross-product model decides the set of runs, names and filter results')

prop('C27', 'Generated run files carry exactly the settings the grid asked for',
     'Every input file generated for a run resolves to the varied-parameter priors, data options, extra options and output root of that run, '
     'with run-specific options overriding shared defaults, and importance files refer to the parent chain they post-process. '
     'Generating or re-reading a grid changes no settings and no chain files.',
     ['inputs', 'configurations'], 'every grid definition, option override and importance definition',
     'No test imports the grid code.',
     ['python/paramgrid/gridconfig.py', 'python/paramgrid/batchjob.py'], [('ini generation', 'python/paramgrid/gridconfig.py makeGrid')],
     'runtime reference-model monitor over generated grid files',
     'each generated file is resolved independently and compared with the definition')

prop('C28', 'The job index never loses or confuses jobs',
     'After any sequence of submissions, completions, queries and deletions the job listing of a grid gives exactly its jobs submitted and not yet finished or deleted, each '
     'with its own id, name and runs, and only jobs that match (by id, name, run, and running or queued state) are ever cancelled, after confirmation. A crash at any point of an update leaves the index readable '
     'with either its previous or its new content.',
     ['histories', 'crash_points'], 'every history of queue operations and every crash point while updating the index',
     'No test imports the job queue code.',
     ['python/paramgrid/jobqueue.py'], [('job index', 'python/paramgrid/jobqueue.py jobIndex/saveJobIndex/submitJob/deleteJobs')],
     'history monitor against a set model with a fake scheduler and injected crashes at every file operation',
     'every crash point of each explored index update is enumerated; the scheduler is a recording stand-in')

prop('C29', 'Grid file tools touch only the files they should',
     'Copying, zipping, extracting, renaming and cleaning up grid files acts on exactly the files of the selected runs and types, copies '
     'contents exactly (less the requested burn-in of chains), and leaves every other file untouched. Without confirmation, or in dry-run, nothing changes.',
     ['inputs', 'configurations'], 'every grid content, selection of runs and extensions, and option combination',
     'No test runs these tools.',
     ['python/copyGridFiles.py', 'python/cleanup.py', 'python/renameParam.py', 'python/extractDistFiles.py'],
     [('file tools', 'python/copyGridFiles.py, python/cleanup.py, python/renameParam.py, python/extractDistFiles.py')],
     'file-system diff monitor around real tool runs in scratch grids',
     'complete before/after hashes of a scratch tree decide each run')

prop('C30', 'CMB dataset likelihoods equal their definition',
     'For any dataset description, the chi-squared returned for a theory spectrum equals the stated likelihood approximation (exact, Gaussian or Hamimeche-Lewis) '
     'evaluated on the selected maps, bins and covariance, is zero (or minimal) when theory reproduces the data, and does not depend on the order in which '
     'columns, maps or spectra are listed in the files. Calls are independent of each other and generated forecast datasets reproduce their input model.',
     ['inputs', 'configurations'], 'every dataset layout, map selection, bin range, noise, calibration and theory spectrum',
     'No test imports the likelihood code.',
     ['python/CMBlikes.py', 'python/makePerfectForecastDataset.py'], [('likelihood', 'python/CMBlikes.py DatasetLikelihood')],
     'runtime reference-model monitor over generated datasets',
     'an independent matrix implementation decides chi-squared; layout permutations give metamorphic twins')

prop('C31', 'Supernova likelihoods equal their definition',
     'For any supernova data set, the log-likelihood equals the Gaussian likelihood with the stated covariance (without its determinant), marginalized '
     'over absolute magnitude(s) and, when requested, the nuisance grid. It does not change when all magnitudes shift by a constant, when '
     'supernovae are re-ordered, or with earlier calls.',
     ['inputs', 'histories'], 'every data file, covariance combination, nuisance value and sequence of calls',
     'No test imports the likelihood code.',
     ['python/planck/SN.py'], [('likelihood', 'python/planck/SN.py SN_likelihood')],
     'runtime reference-model monitor over generated datasets',
     'an independent marginal-Gaussian implementation decides each value')

prop('C32', 'Run status follows the files; grid tools act on exactly the runs asked for',
     'Whether a run exists, is complete, stuck, stopped, finished, resumable, converged, minimized, analysed or out of date is decided by its files alone. The submission tool '
     'submits exactly the selected runs in the requested state, once each and with the right ini file (nothing in a dry run); the convergence report lists exactly the '
     'runs in the state asked for with their convergence; batch analysis uses, for each selected run that needs it, that run\'s chains, output directory, '
     'burn-in and settings.',
     ['inputs', 'configurations', 'histories'], 'every grid, combination of run states and tool options',
     'No test runs these tools.',
     ['python/paramgrid/batchjob.py', 'python/runbatch.py', 'python/checkConverge.py', 'python/runGridGetdist.py'],
     [('status queries', 'python/paramgrid/batchjob.py jobItem'), ('tools', 'python/runbatch.py, python/checkConverge.py, python/runGridGetdist.py')],
     'model-based monitor of status queries and real tool runs against a recording scheduler',
     'a model of the generated run states decides every query, submission, report line and settings file')

prop('C33', 'Reports over runs quote the values in the result files',
     'Tables over a grid, parameter comparisons, latex constraints and best-fit or chain extracts list exactly the selected runs that have results, in the '
     'right section, and every value, shift, chi-squared difference and convergence quoted is that of the named run (and of the right reference run).',
     ['inputs', 'configurations'], 'every grid, set of available results, selection, comparison option and best-fit file',
     'No test runs these tools.',
     ['python/makeTables.py', 'python/makeParamCompare.py', 'python/makeLatex.py', 'python/extractBestFitParams.py', 'python/extractBestFitCAMB.py', 'python/chainPeek.py'],
     [('tables', 'python/makeTables.py, python/makeParamCompare.py, python/makeLatex.py'), ('extracts', 'python/extractBestFitParams.py, python/extractBestFitCAMB.py, python/chainPeek.py')],
     'reference-model monitor over real runs of the reporting tools in scratch grids',
     'reports are parsed back and every run, value and comparison is decided from the files that were written')

prop('C34', 'Submitted jobs run what was asked with the resources asked for',
     'A job submitted to the queue runs each of its input files exactly once with the requested program, and asks for the nodes, chains, threads, memory, time, queue and class given as arguments, '
     'else in the job template, else in the environment, else the defaults; every chain gets the same whole number of cores, at least one, and never more than the node has in total. Dry runs write and submit nothing, and jobs that are '
     'not submitted are not recorded as submitted.',
     ['inputs', 'configurations'], 'every combination of settings sources, runs per job and (shipped or user) job template',
     'No test submits a job.',
     ['python/paramgrid/jobqueue.py', 'python/runMPI.py', 'job_script'], [('job settings and script', 'python/paramgrid/jobqueue.py jobSettings/submitJob/getDefaulted')],
     'runtime monitor of scripts and commands received by a recording stand-in scheduler, against a precedence model',
     'every value of each submitted script is compared with the model on the explored submissions')

prop('C35', 'The CamSpec likelihood equals its definition',
     'For any CamSpec data set, choice of spectra and multipoles, theory and nuisance parameters, the chi-squared equals that of the data points in use '
     'about (theory plus stated foregrounds) over calibration, with the part of the covariance that belongs to exactly these points. It does not depend on the form in which '
     'the multipoles are given, on earlier calls or loads, or on cached inverses. The co-added spectrum is the generalized least-squares '
     'combination, and differences of spectra come with their own covariance.',
     ['inputs', 'histories'], 'every data file, choice of spectra and multipoles, parameter value and sequence of loads and calls',
     'No test imports the likelihood code.',
     ['python/planck/CMB_CamSpec.py'], [('likelihood', 'python/planck/CMB_CamSpec.py CamSpec_likelihood')],
     'runtime reference-model monitor over generated datasets',
     'an independent implementation keyed by (spectrum, multipole) decides each value')

prop('C36', 'Axis ticks lie on the axis, evenly at round steps, and read as their values',
     'On every axis of a plot, for any range, size and font, the ticks placed are inside the axis, in order, evenly spaced by a round step, not more than the number '
     'asked for, and at least one; each label (times the factor at the end of the axis, if any) states the value of its tick, and labels do not overlap.',
     ['inputs'], 'every axis range, length, font size, rotation, tick limit and pruning choice',
     'No test looks at ticks.',
     ['python/getdist/matplotlib_ext.py', 'python/getdist/plots.py'],
     [('tick locator', 'python/getdist/matplotlib_ext.py BoundedMaxNLocator'), ('labels', 'python/getdist/matplotlib_ext.py SciFuncFormatter'),
      ('use in plots', 'python/getdist/plots.py _auto_ticks, _set_axis_formatter')],
     'runtime invariant monitor on ticks and drawn labels',
     'the ticks and labels matplotlib is given are checked against the axis range and against each other')

prop('C37', 'The DES likelihood equals its definition',
     'For any DES-format data set, choice of data types, background, power spectrum and nuisance parameters, the chi-squared is that of exactly the points whose type is in use and '
     'whose angle is strictly within the stated range of their pair of bins, with the matching part of the covariance, about correlation functions given by the Limber integrals over '
     'the (shifted) redshift distributions with galaxy bias, lensing efficiency, intrinsic alignment and shear calibration, summed over multipoles with the Bessel function of their type. '
     'Each theory value is compared with the data of the same type and bins, in whatever order the data set lists them.',
     ['inputs'], 'every data file, selection, order and subset of types, number of bins, cosmology and nuisance parameter value',
     'No test imports the likelihood code.',
     ['python/planck/DES.py'], [('likelihood', 'python/planck/DES.py DES_like.load_dataset/get_theory/make_vector/chi_squared')],
     'runtime reference-model monitor over generated datasets',
     'an independent implementation keyed by (type, bins, angle) with direct integrals and multipole sums decides each value, with a stand-in for the absent camb')

prop('C38', 'Grid plots compare exactly the runs asked for',
     'For any grid and options, makePlots draws one figure for each comparison asked for (each run, data combinations, all data, importance runs, parameter tags, replaced data), of exactly '
     'the selected runs that exist (and are converged as asked), in order, with the parameters and layout asked for, and writes each to its own file with the tags asked for in each output type.',
     ['inputs', 'histories'], 'every grid, state of its runs and combination of options',
     'No test runs makePlots.',
     ['python/makePlots.py', 'python/paramgrid/batchjob_args.py'], [('comparisons', 'python/makePlots.py'), ('selection of runs', 'python/paramgrid/batchjob_args.py filteredBatchItems/filterForDataCompare')],
     'runtime monitor of the calls and files of the real script, against a model of its options',
     'each figure requested of the plotter and each file is compared with the model on scratch grids; some are really drawn')

prop('C39', 'Stored theory spectra are plotted as stored, coloured by their parameter',
     'For any directory of theory spectra stored for samples, exactly the spectra of the run asked for are loaded, each with the parameters of its own sample, calibrated and scaled as asked; '
     'line plots draw each at its values and density plots at its position (and nothing elsewhere), in the colour of its parameter value on the scale shown.',
     ['inputs'], 'every set of stored files, sign and scale of the spectra and plot option',
     'No test imports this code.',
     ['python/chainDumpPlot.py'], [('loading', 'python/chainDumpPlot.py loadFiles'), ('drawing', 'python/chainDumpPlot.py rainbowLinePlot/rainbowDensityPlot/CLdensity')],
     'runtime monitor of loaded spectra and drawn artists',
     'lines, colours and image pixels are compared with the files written')
