"""Properties added after the first fifteen."""


def add(prop):
    prop("C14", "Batch jobs hold and compute every scheduled sample exactly once",
         "In the batch (PBS) pool a package is submitted as soon as its task sizes add up to more than one or it holds more than a thousand samples, and whatever is left at the next poll. Every scheduled sample is in exactly one submitted job; when qsub fails, "
         "the package is kept, counted as running and submitted with the next attempt, and only the eleventh failure in a row is reported as an error. A job computes each of its samples exactly once, with the seed of the sample's identifier and the simulation of its level. The submitted script asks for the resources the user set, before any command, and runs the worker in the environment the user set.",
         ["fault_sequences", "histories", "inputs"], "all sequences of scheduling on up to three levels with any task sizes, qsub outages of any length, polls, job runs, renewals, settings of the batch jobs",
         "The PBS tests need a cluster and are not part of the passing suite; no test makes qsub fail.",
         ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"], [("packing and submission", "SamplingPoolPBS.schedule_sample, execute"), ("worker", "PbsJob.calculate_samples")],
         observe=["qsub invocations", "simulation calls of the job processes", "get_finished"])
    prop("C15", "Finished batch jobs are collected once and completely, whatever qstat does",
         "A poll of the batch pool delivers all samples of every job that qstat reports finished and of no other job: computed samples with bitwise their results, failed ones with their message, and those the job did not get to (it was killed) as failed. Nothing is delivered twice or lost. "
         "A failing qstat delays delivery only; the eleventh failure in a row is reported as an error. The reported number of running samples equals the scheduled and undelivered ones, and the reported times count each computed sample of the delivered jobs once.",
         ["fault_sequences", "histories", "crash_points"], "all interleavings of several jobs starting, stopping after any number of samples, finishing and being killed, with qstat outages of any length and polls",
         "The PBS tests need a cluster; killed jobs and failing qstat are never tested.",
         ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"], [("finished jobs from qstat", "SamplingPoolPBS._qstat_pbs_job"), ("collection", "SamplingPoolPBS._get_result_files, PbsJob.read_results")],
         observe=["SamplingPool.get_finished"])
    prop("C16", "A new batch pool over the same directory takes over the unfinished samples",
         "A pool created in debug mode over the work directory of an interrupted run and told the unfinished samples delivers each of them exactly once, when its job is over (jobs the batch system no longer knows are over), with the result the job computed or as failed; until then it counts as running. "
         "No other sample of those jobs is delivered, and new jobs never take the number, files or results of old ones.",
         ["crash_points", "histories", "fault_sequences"], "interruption at any point of any history of packing, submitting, job runs and polls, repeatedly, with any subset of the undelivered samples told, qstat outages and forgotten jobs",
         "The PBS tests need a cluster; resuming while old jobs still run is never tested.",
         ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"], [("collection of old jobs", "SamplingPoolPBS._collect_unfinished"), ("job numbering", "SamplingPoolPBS._get_job_count"), ("sample to job map", "PbsJob.save_sample_id_job_id")],
         observe=["SamplingPool.get_finished after have_permanent_samples"])
    QF = ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_types.py", "mlmc/quantity/quantity_estimate.py"]
    prop("C18", "The estimate of a mean is the multilevel estimator over all valid samples",
         "For any quantity the estimated mean is the sum over levels of the average of fine minus coarse (fine alone on the coarsest level), the level variance is the unbiased sample variance of that difference and the variance of the estimate the sum of level variances divided by counts; "
         "a sample with a NaN in any component, fine or coarse, takes no part in any of them and is counted as removed on its level (never in another), and a level with fewer than two valid samples makes variances infinite. "
         "The result does not depend on how levels are split into chunks or in which order and how often quantities are evaluated, always reflects all samples stored so far, and estimating with no valid sample at all is an error. The estimator object gives the same for the moments and their covariances, with the moment functions given to the call before those given at its creation, and as the first n samples of a level exactly the first n stored so far.",
         ["inputs", "histories", "programs"], "all sample tables (any levels, counts, NaN placements), all chunkings, all quantities, with samples arriving and quantities dropped between estimates",
         "Tests compare a few estimates of one synthetic simulation with tolerances; levels fit into one chunk and hold no NaN on single components.",
         QF + ["mlmc/tool/hdf5.py"], [("streamed sums over chunks", "quantity_estimate.estimate_mean"), ("masking of NaN samples", "quantity_estimate.mask_nan_samples"), ("mean and variance of the estimator", "QuantityMean._calculate_mean_var")],
         observe=["estimate_mean(...).mean, var, l_means, l_vars, n_samples, n_rm_samples"])
    prop("C19", "Arithmetic on quantities is componentwise arithmetic on their samples",
         "Every arithmetic operator and numpy function applied to quantities, and to quantities and numbers, lists or arrays on either side, yields for each sample, fine and coarse separately, the operation on the operands' components (a single component extends to all), with the operands' type kept by operators. "
         "Expressions nest freely; a result is never affected by other expressions evaluated or dropped before, and operating on two differently selected quantities, or on quantities of different storages, is refused.",
         ["programs", "inputs"], "all expression trees over +, -, *, /, %, numpy functions and reductions, constants on both sides, any types, evaluated in any order with intermediate quantities deleted",
         "Tests evaluate a few fixed expressions on one storage.",
         QF, [("operator overloads", "Quantity.__add__ ... __rmod__"), ("numpy functions", "Quantity.__array_ufunc__, _method"), ("cache of evaluated chunks", "Quantity.samples")],
         observe=["Quantity.samples of every chunk", "estimate_mean"])
    prop("C20", "Indexing and building of compound quantities address exactly the named parts",
         "Selecting by name, time, location and array key (integers, negative ones, slices with steps, tuples, ellipsis, as numpy indexes) yields exactly these components in order, from quantities and from their estimated means alike, for any nesting of types; unknown names, times and positions are refused. "
         "Quantities concatenated into arrays, time series, fields and dictionaries return their parts unchanged under the given keys, mixed types are refused where all items must agree, and interpolation in time is linear between the two neighbouring times and refused outside.",
         ["programs", "inputs"], "all result formats with several quantities, times, locations and shapes of up to three dimensions, all keys, all nestings of constructors",
         "Tests index one format with a few keys and check shapes.",
         QF, [("positions of parts", "QType.get_key, DictType.get_key, ArrayType.get_key, _make_getitem_op"), ("constructors", "Quantity._concatenate, QArray, QTimeSeries, QField, QDict"), ("interpolation", "TimeSeriesType.time_interpolation")],
         observe=["Quantity.samples", "QuantityMean.__getitem__"])
    prop("C21", "Selection keeps exactly the samples that satisfy the conditions",
         "A comparison of quantities holds for a sample when it holds for every component, fine and coarse; conditions combine by the logical functions, and selecting by one or several of them keeps exactly the samples for which all hold, in order, on every level, with the values unchanged. "
         "Selecting by something that is no condition, or by a condition from a differently selected quantity, is refused.",
         ["programs", "inputs"], "all combinations of comparisons (six operators, constants on both sides, NaN values), logical functions and nested selections, all chunkings",
         "Tests check numbers of selected samples for a few conditions on one chunk.",
         QF, [("masks", "Quantity._process_mask, _mask_quantity"), ("selection", "Quantity.select"), ("selection identity", "Quantity.selection_id, _validate_selection")],
         observe=["Quantity.samples", "estimate_mean"])
    prop("C22", "Moments of quantities are the moment functions of every component",
         "Legendre, monomial and Fourier moment functions return for points of any array shape the exact basis functions of the linearly (or logarithmically) mapped point, of any requested size, NaN outside the domain when clipping is on, with matching derivatives, inverse mapping, linear combinations and equality. "
         "The moments of a quantity are these functions of every component, fine and coarse separately, arranged per component or per moment as requested; a single moment is that column, and the covariance quantity holds all products of two moments.",
         ["inputs", "programs"], "all moment sizes, domains, reference domains, logarithm and clipping settings, point arrays of any shape, and quantities of any type",
         "Tests compare a few moments at a few points or statistically.",
         ["mlmc/moments.py", "mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity_types.py"], [("basis functions", "Legendre, Monomial, Fourier._eval_all"), ("quantity of moments", "quantity_estimate.moments, moment, covariance"), ("types of moments", "QType.replace_scalar")],
         observe=["Moments.eval_all, eval_all_der, change_size, __eq__", "Quantity.samples and estimate_mean of moments"])
    prop("C23", "Sample allocation, level parameters, domain and regression follow their formulas",
         "The optimal numbers of samples are, per level, the maximum over moments of sqrt(V/C) times the sum of sqrt(V*C) over levels divided by the target variance, rounded, at most V times the number of levels divided by the target and at least two. "
         "Level parameters and initial sample counts form geometric sequences from the first to the last given value (given vectors are used as they are), the domain estimate is the smallest lower and largest upper quantile over all levels of the valid fine samples, "
         "and regressed variances reproduce any variances that are a log-quadratic function of the step exactly, keeping the coarsest level's own.",
         ["inputs"], "all variance tables, costs, targets, ranges, level counts, sample tables and quantiles",
         "Tests check one allocation within tolerances; the domain and regression functions are exercised only through plots and final variances.",
         ["mlmc/estimator.py"], [("allocation", "estimate_n_samples_for_target_variance"), ("ranges", "calc_level_params, determine_level_parameters, determine_n_samples, determine_sample_vec"), ("domain", "Estimate.estimate_domain"), ("regression", "Estimate.estimate_diff_vars_regression, _moment_variance_regression")],
         observe=["return values"])
    prop("C24", "Subsamples and bootstrap draw the requested number of collected samples",
         "A subsampled quantity has on every level exactly the requested number of samples, each one of the collected pairs unchanged, whatever the chunking, and evaluating it again does so again; every collected sample can be drawn. "
         "Bootstrap statistics of a scalar quantity's moments lie between the extremes over the collected samples of each level, are exact and without spread for moments constant over the samples, and have spread otherwise.",
         ["inputs", "histories"], "all sample tables, sizes of subsamples from zero to all, chunkings, repeated draws",
         "Tests compare bootstrap statistics of one run with wide tolerances.",
         ["mlmc/quantity/quantity.py", "mlmc/estimator.py"], [("per-level draw across chunks", "Quantity.subsample, _get_subsample"), ("bootstrap", "Estimate.est_bootstrap")],
         observe=["Quantity.samples of the subsample", "estimate_mean counts", "bootstrap statistics"])
    prop("C25", "Sets of random fields take their values in the right points, independently",
         "A field restricted to regions takes its values in the points of these regions and zero elsewhere, in whatever order regions, elements and fields are listed; a field without regions covers all points; when the regions of the points are not given, no point is in a region. A field defined by a function takes in every point the function of its parameters' values in the same point and of the same realization. "
         "A sample holds exactly the outer fields (all, or those asked for). Every sample is a fresh realization, distinct fields have independent realizations even when they are built from the same random field object, and two sets of fields or two point sets do not influence each other.",
         ["inputs", "programs", "histories"], "all sets of constant, random and function fields with nested parameters, all region lists, meshes and orders, repeated samples and changes of points",
         "Tests sample one set of fields on one mesh and compare statistics.",
         ["mlmc/random/correlated_field.py"], [("points per region", "Fields.set_points"), ("evaluation of dependent fields", "Fields._set_field_param, Field, Fields.sample"), ("outer fields", "Fields.set_outer_fields")],
         observe=["Fields.sample"])
    prop("C26", "Mesh and field files return what was written",
         "A mesh written to an ASCII mesh file and read again has the same nodes, elements (types, tags, nodes), physical names, and element data of any number of components and times, bitwise; so do files of the older format 1.0, of other programs with other orders of sections and unknown sections between them. "
         "Fields written for the elements of a mesh are read for the same elements, in the order asked for, also when they are written to the file of the mesh itself.",
         ["inputs", "histories"], "all meshes (node and element numbering with gaps, all element types, several tags), physical names, element data of any component count, repeated write and read",
         "Tests write and read one field of one mesh.",
         ["mlmc/tool/gmsh_io.py"], [("reader", "GmshIO.read, read_element_data_head, read_element_data_block"), ("writer", "GmshIO.write_ascii, write_element_data, write_fields")],
         observe=["GmshIO attributes after read", "contents of files"])
    prop("C28", "Random fields have the requested law and are determined by the seed",
         "A random field, by covariance decomposition, by Fourier modes or by a generator library, has in every point the requested mean and standard deviation (constants or given per point, exponentiated on request) and between points the requested correlation; coinciding points take the same value, zero deviation gives the mean exactly. "
         "Every realization asked for is new, the same seed gives the same sequence, and after new points are set the field belongs to the new points only. Porosity and conductivity derived from a field follow their documented laws.",
         ["inputs", "histories"], "all point sets, correlation functions (exponents, lengths, anisotropy), means and deviations, seeds, sequences of samples and of changes of points",
         "Tests compare statistics of a few fixed fields with wide tolerances, and none sets points twice.",
         ["mlmc/random/correlated_field.py"], [("covariance decomposition", "SpatialCorrelatedField.cov_mat, _eigen_value_approx, _sample"), ("mean and deviation", "RandomFieldBase.set_points, sample"), ("Fourier modes", "FourierSpatialCorrelatedField"), ("library fields", "GSToolsSpatialCorrelatedField"), ("fields of the flow simulation", "mlmc/tool/flow_mc.py: create_corr_field"), ("derived values", "positive_to_range, kozeny_carman")],
         observe=["sample() of the field classes"])
    prop("C29", "The flow simulation couples fine and coarse by one realization and fails loudly",
         "Each sample of the external-program simulation evaluates the random fields once, in the centres of the bulk elements of the fine and of the coarse mesh together, so that both runs see the same realization; the realization is determined by the seed of the sample and differs between seeds. "
         "The program gets the values of exactly the fields its input uses and the input with every placeholder substituted. Results are the outflow at the initial time of the fine run and of the coarse run (zero on the lowest level), never of anything else; a program that leaves no output, no outflow at the initial time, or an inflow through the outlet makes the sample fail with an error. "
         "A level whose files exist already (not cleaned) behaves as one prepared now.",
         ["inputs", "fault_sequences", "histories"], "all pairs of meshes in two and three dimensions with boundary regions, all outputs of the external program including missing and broken ones, all seeds, cleaned and kept levels",
         "The flow simulation needs an external program and is not exercised by any stable test.",
         ["mlmc/tool/flow_mc.py", "mlmc/tool/gmsh_io.py"], [("points of both meshes", "FlowSim.extract_mesh, make_fields"), ("one realization for both runs", "FlowSim.generate_random_sample, calculate"), ("results", "FlowSim.extract_result, _run_sample"), ("prepared files", "FlowSim.level_instance, _make_mesh, substitute_placeholders")],
         observe=["files seen by the external program", "FlowSim.calculate"])
    prop("C30", "Densities reproduce the moments they are built from",
         "Exact moments and covariances of a density are its integrals against the moment functions; the orthogonalized moments have an identity covariance matrix for it. A density estimated from moments is positive, integrates to one over its domain and has these moments; its distribution function is its integral, monotone, zero before and one after the domain, "
         "for points in any order. Distances between densities are the integrals that define them. The density constructed from an estimate reproduces the estimated moments of the samples.",
         ["inputs"], "all domains, moment counts, reference densities (linear in the reference variable, with atoms), point orders, sample tables",
         "Tests print or plot densities and compare with distributions within wide tolerances.",
         ["mlmc/tool/simple_distribution.py", "mlmc/tool/distribution.py", "mlmc/estimator.py"], [("moment matching", "SimpleDistribution.estimate_density_minimize"), ("density and distribution function", "SimpleDistribution.density, cdf"), ("exact moments, orthogonalization", "compute_semiexact_moments, compute_semiexact_cov, construct_orthogonal_moments"), ("from an estimate", "Estimate.construct_density")],
         observe=["return values"])
    prop("C34", "The synthetic simulation couples levels by one draw and fails as often as asked",
         "A synthetic sample is a function of its seed and of the steps alone: one draw of the given distribution, made from the seed, enters the fine and the coarse result, each with the error of its own step, in the layout of the result format; the coarse result of the lowest level is zero. "
         "The share of samples that fail on purpose is never below the requested one and exceeds it by at most one sample, counted from the creation of the simulation; a draw that is not a number is a failure too, and a failure is an exception, never a result. "
         "The cost of a sample follows the declared complexity, and the variant with workspaces takes its settings from the file in the sample's directory.",
         ["inputs", "histories"], "all distributions, steps, result formats, requested shares and sequences of samples on several levels, with configurations passed through pickling and simulations created anew",
         "Tests use the simulation as a tool and look at its results with statistical tolerances.",
         ["mlmc/sim/synth_simulation.py"], [("one draw for both levels", "SynthSimulation.generate_random_samples, calculate"), ("failing share", "SynthSimulation.generate_random_samples"), ("settings from the directory", "SynthSimulationWorkspace.calculate")],
         observe=["calculate()", "level_instance()", "n_ops_estimate()"])
    prop("C35", "The statistical tests decide by the probability they declare",
         "The test of a mean passes if and only if the probability of a deviation as large as that of the samples exceeds the given limit, likewise the test of a variance with deviations to either side, and the comparison of groups answers whether equal means cannot be rejected on the level of five hundredths.",
         ["inputs"], "all samples, hypothetical means and variances, limits and groups",
         "No test calls them.",
         ["mlmc/tool/stats_tests.py"], [("mean", "t_test"), ("variance", "chi2_test"), ("groups", "anova")],
         observe=["AssertionError raised or not, return value"])
