#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Sample storage is an exact ledger of what was saved",
  "After any sequence of saving scheduled sample ids, successful (fine, coarse) result pairs and failed samples, on any "
  "levels and in batches of any size, the in-memory and the HDF5 storage report exactly what was saved: the scheduled ids "
  "per level in order, the number of finished (successful plus failed) and of collected samples per level, and every "
  "result pair unchanged, in saving order and on its own level. The HDF5 storage also reports exactly the failed ids per "
  "level, the unfinished ids (scheduled, neither successful nor failed), and forgets failed samples only when asked to "
  "clear them. Result arrays have shape [values, samples, 2], without the coarse part on level 0.",
  ["histories", "inputs"], "all interleavings of the save/read operations over up to 4 levels, all batch sizes and result "
  "lengths, all float values incl. NaN/inf",
  "test_storage/test_hdf save a fixed batch once per level and never interleave levels, failures and empty levels.",
  ["mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
  [("Memory.save_samples / n_finished / sample_pairs", "mlmc/sample_storage.py"),
   ("SampleStorageHDF.save_samples, LevelGroup.append_*", "mlmc/sample_storage_hdf.py, mlmc/tool/hdf5.py")],
  [("scheduled, collected_ids, collected_values, failed", "HDF5 datasets of one level", "mlmc/tool/hdf5.py LevelGroup"),
   ("_results, _n_finished, _failed, _scheduled", "the same in memory", "mlmc/sample_storage.py Memory")],
  ["load_scheduled_samples()", "n_finished()", "get_n_collected()", "sample_pairs()", "chunks()/sample_pairs_level()",
   "failed_samples()", "unfinished_ids()"])

p("C02", "An HDF5 storage reopened at any point continues unchanged",
  "Closing an HDF5 sample storage after any history of operations and opening the same file again gives a storage that "
  "answers every query as before (scheduled, collected, failed, unfinished, level ids, level parameters, cost per sample, "
  "result format), and further operations continue from there exactly as if it had never been closed. The result format "
  "read back is the one that was saved, and attaching with a different result format (other names, units, shapes, times "
  "or locations) or different level parameters is refused and leaves the file as it was.",
  ["histories", "inputs", "crash_points"], "all operation histories with a reopen after any operation; all result formats with string "
  "or coordinate locations",
  "test_hdf reopens once after one fixed history with one hard-coded format; a different format is never tried.",
  ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py", "mlmc/quantity/quantity_spec.py"],
  [("save_global_data/save_result_format/load_result_format", "mlmc/sample_storage_hdf.py"),
   ("HDF5.load_from_file/init_header", "mlmc/tool/hdf5.py"), ("QuantitySpec.__eq__", "mlmc/quantity/quantity_spec.py")],
  [("result_format dataset, level_parameters attribute", "file level metadata", "mlmc/tool/hdf5.py")],
  ["SampleStorageHDF(file)", "save_global_data()", "load_result_format()", "get_level_parameters()"])

p("C03", "Every scheduled sample ends exactly once, as collected or as failed",
  "For any number of levels and any sequence of target sample numbers, scheduling and polling, a sampler creates on every "
  "level exactly as many samples as the largest target in force at any scheduling so far, each with an id that is unique "
  "over the whole run and names its level. Once the pool reports nothing running, every scheduled id has been stored "
  "exactly once, either with the (fine, coarse) result its simulation returned on that level, or as failed; nothing is "
  "lost, duplicated or stored on another level.",
  ["histories", "schedules", "inputs"], "all sequences of set target/schedule/poll (with and without timeout) over "
  "generated level counts, completion orders and failure patterns, on both storages",
  "test_sampler and test_run use one fixed sequence and check mostly counts on success.",
  ["mlmc/sampler.py", "mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
  [("Sampler.schedule_samples / ask_sampling_pool_for_samples / set_initial_n_samples", "mlmc/sampler.py"),
   ("get_finished", "mlmc/sampling_pool.py")],
  [("_n_scheduled_samples, _n_target_samples", "per level counters", "mlmc/sampler.py")],
  ["sample_storage.load_scheduled_samples()", "sampler.n_finished_samples", "sampler.l_scheduled_samples()"])

p("C04", "Adaptive adding of samples is monotone and reaches the estimate",
  "For any estimated sample numbers, one call to process adding samples never lowers the number of scheduled samples on "
  "any level and never schedules above the larger of that number and the estimate rounded up. On a level below its "
  "estimate it schedules at least the requested fraction of the gap (everything left when the gap is smaller than that "
  "fraction of the estimate), so repeating the call ends after finitely many steps with every level at the estimate or "
  "above; the call returns true exactly when no level is left below its estimate, and it returns even if all samples of "
  "a level fail.",
  ["inputs", "histories", "fault_sequences"], "all estimates, fractions in (0,1], starting counts and failure patterns",
  "tests run the loop for one problem until it ends; they never look at intermediate calls or at failing levels.",
  ["mlmc/sampler.py"],
  [("Sampler.process_adding_samples / set_scheduled_and_wait / set_level_target_n_samples", "mlmc/sampler.py")],
  [("_n_target_samples", "targets only grow", "mlmc/sampler.py")],
  ["sampler.l_scheduled_samples()", "return value"])

p("C05", "A restarted run continues the stored one; renewing reruns exactly the failed",
  "A new sampler attached to an HDF5 file (or open storage) left by an earlier, possibly interrupted run keeps all stored samples, counts the "
  "already scheduled samples towards its targets, and only creates ids that were not used before. Renewing failed samples "
  "submits exactly the ids stored as failed, each on its own level, clears the failed record, and once they finish every id is "
  "again stored exactly once with the result of the rerun.",
  ["histories", "crash_points", "fault_sequences"], "all run/interrupt/reopen/renew histories with generated failure patterns, "
  "interrupted after any storage operation or inside of one",
  "test_run renews once on one storage; restart with unfinished samples is only in PBS tests that are not run.",
  ["mlmc/sampler.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
  [("Sampler.__init__, Sampler.renew_failed_samples", "mlmc/sampler.py"),
   ("clear_failed, failed_samples", "mlmc/sample_storage_hdf.py")],
  [("scheduled dataset", "ids ever used", "mlmc/tool/hdf5.py")],
  ["SampleStorageHDF", "schedule_sample calls seen by the pool"])

p("C06", "No completed sample is lost when it finishes while the pool is polled",
  "For every interleaving of samples completing in worker threads and the main thread asking the pool for finished samples, "
  "each completed sample is handed out by exactly one poll, with its own id, result or error and level. The reported number "
  "of running samples is never negative and is zero once every submitted sample has been handed out, so waiting for the pool "
  "ends and only after everything was delivered.",
  ["schedules"], "all points of the polling code at which one or several completions (success or failure, any level) are "
  "delivered by another thread",
  "tests poll real pools whose timing never hits the window; the scheduler decides, not the test.",
  ["mlmc/sampling_pool.py"],
  [("OneProcessPool.get_finished, ProcessPool.schedule_sample callbacks", "mlmc/sampling_pool.py")],
  [("_queues, _failed_queues, _n_running", "result queues filled by callback threads", "mlmc/sampling_pool.py")],
  ["pool.get_finished()"])

p("C07", "A sample's result depends only on its id, level and configuration",
  "The seed passed to a simulation is a fixed function of the sample id alone, different for different ids, so the same "
  "sample gives the same result in the one-process, process, thread and PBS pool, in any order, in any batch, and when "
  "rerun later. On level l > 0 the simulation gets the parameters of level l as fine and those of level l-1 as coarse, on "
  "level 0 the coarse parameter is zero, and the synthetic simulation computes fine and coarse from the same random draw: "
  "for equal seeds the fine result of level l > 0 equals the coarse result of level l+1, and its coarse result on level 0 "
  "is zero.",
  ["inputs", "schedules", "configurations"], "all sample ids, level parameter lists, pools and submission orders",
  "tests compare statistics of one pool at a time, never sample by sample over pools, orders and levels.",
  ["mlmc/sampling_pool.py", "mlmc/sampler.py", "mlmc/sim/synth_simulation.py", "mlmc/tool/pbs_job.py"],
  [("SamplingPool.compute_seed/calculate_sample", "mlmc/sampling_pool.py"),
   ("Sampler._create_level_sim_objects", "mlmc/sampler.py"), ("SynthSimulation.calculate", "mlmc/sim/synth_simulation.py")],
  [], ["arguments received by Simulation.level_instance and calculate", "stored results"])

p("C08", "A failing simulation only fails its own sample",
  "Whatever exception a simulation raises, and whatever result of a wrong length it returns, exactly that sample is "
  "reported as failed with a message naming the error; all other samples of the batch are reported with their correct "
  "results, and polling and storing go on. The same holds when preparing the sample's workspace fails (a missing common "
  "file) and when the outcome cannot be passed back from a worker process.",
  ["fault_sequences", "inputs"], "all assignments of failure kinds (exception types and messages incl. non-ASCII, wrong length, missing "
  "common file, unpicklable result) to samples of a batch, in the one-process, process and thread pool, on both storages",
  "tests inject one kind of failure (nan) in one pool.",
  ["mlmc/sampling_pool.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
  [("SamplingPool.calculate_sample", "mlmc/sampling_pool.py"), ("ProcessPool callbacks", "mlmc/sampling_pool.py"),
   ("LevelGroup.append_failed", "mlmc/tool/hdf5.py")],
  [], ["pool.get_finished()", "storage.failed_samples()", "storage.sample_pairs()"])

p("C09", "Each sample has a private workspace that is kept or removed by the rules",
  "A simulation that needs a workspace runs with the working directory set to a directory of its own sample, fresh in "
  "normal mode, which contains copies of all common files and nothing of other samples. After a successful sample the "
  "directory is removed, a copy being kept for the first five samples of each level; after a failed one its content is "
  "kept in the directory of failed samples; in debug mode successful directories stay in place. Creating a non-debug pool "
  "clears only the pool's own output directory, no other file of the user is touched, and the main process stays in its working directory (but for a thread pool).",
  ["inputs", "histories", "configurations"], "all sequences of successful/failing samples on several levels, with generated common files, in "
  "debug and normal mode, in the one-process and process pool and the PBS job",
  "test_sampling_pools runs one configuration and does not inspect directory contents.",
  ["mlmc/sampling_pool.py", "mlmc/tool/pbs_job.py"],
  [("handle_sim_files, copy_sim_files, move_successful_rm, move_failed_rm, remove_sample_dir", "mlmc/sampling_pool.py")],
  [("output/<sample id>, output/failed, output/several_successful", "workspace layout", "mlmc/sampling_pool.py")],
  ["file system below work_dir"])

p("C10", "Reported cost per sample is total time over number, however often polled",
  "After any history of polls, the cost per sample stored for a level equals the total measured running time of the successful samples "
  "of that level divided by their number, independently of how the samples were split into polls, and is zero for a level "
  "without measured samples (the PBS pool measures whole jobs, time and number of all samples run in them). Both storages report the same costs, and the HDF5 storage keeps them over a reopen.",
  ["histories", "schedules", "inputs"], "all splits of samples into polls and all positive durations, both storages, one-process pool with a controlled clock",
  "wall-clock times are not reproducible in tests, so they never check the numbers.",
  ["mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
  [("OneProcessPool._save_running_time/get_finished", "mlmc/sampling_pool.py"),
   ("save_n_ops/get_n_ops", "mlmc/sample_storage.py, mlmc/sample_storage_hdf.py")],
  [("n_ops_estimate attribute", "[total time, number]", "mlmc/tool/hdf5.py")],
  ["storage.get_n_ops()"])

p("C11", "PBS pool reports each sample exactly once whatever jobs do",
  "For any division of samples into PBS jobs and any order in which jobs finish, are killed at any point (even in the middle of writing a result) or stay queued, with "
  "qsub and qstat failing now and then (up to ten times in a row), every scheduled sample is reported exactly once: with "
  "the result computed in its job, as failed with the simulation's error, or as failed because its job ended without it. "
  "The reported number of running samples is that of the samples scheduled and not yet reported, so it is zero only when "
  "all are reported.",
  ["schedules", "fault_sequences", "histories"], "all job sizes, completion orders, partial executions and transient qsub/qstat failures",
  "PBS tests need a cluster and are deselected; the code is untested in the suite.",
  ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
  [("SamplingPoolPBS.execute/_qstat_pbs_job/_get_result_files", "mlmc/sampling_pool_pbs.py"),
   ("PbsJob.calculate_samples/read_results", "mlmc/tool/pbs_job.py")],
  [("jobs/<job>_scheduled.yaml, _successful_results.yaml, _failed_results.yaml, <job>_<pbs id>", "job state on disk",
    "mlmc/tool/pbs_job.py")],
  ["pool.get_finished()"])

p("C12", "A restarted PBS run collects what its jobs finished meanwhile",
  "If the main process is interrupted or killed at any point after the storage was created and restarted with the old working directory kept "
  "(debug mode), the new pool, told the ids of unfinished samples, reports each of them that was put into a job exactly "
  "once, whether its job had ended or still runs: with the result or the error stored by its job, or as failed if its job "
  "ended without it. It reports no sample that was already collected, and new jobs never reuse or overwrite the files of "
  "earlier submitted jobs. A run continued by a new Sampler on the same storage ends with each scheduled sample stored at most once, "
  "wherever the process was killed.",
  ["crash_points", "histories", "fault_sequences"], "all job layouts, all sets of collected/uncollected samples at the interruption, successful and "
  "failed samples mixed",
  "restart is only exercised by cluster tests that are deselected.",
  ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py", "mlmc/sampler.py"],
  [("have_permanent_samples/_collect_unfinished/_get_job_count", "mlmc/sampling_pool_pbs.py"),
   ("save_sample_id_job_id/job_id_from_sample_id", "mlmc/tool/pbs_job.py")],
  [("sample_id_job_id.json", "which job computes a sample", "mlmc/tool/pbs_job.py")],
  ["pool.get_finished()", "files in the jobs directory"])

p("C13", "Quantity indexing addresses exactly the stored numbers",
  "For any result format, indexing the root quantity by name, time, location and array index (ints, slices, tuples), in any valid "
  "depth, selects exactly the entries of the stored result vectors with that name, time, location and index, on every level, fine and "
  "coarse; time interpolation gives the linear interpolation of the neighbouring times. Array, dictionary, time series and field "
  "quantities built from other quantities contain their parts in order and can be indexed back to them; building them "
  "from parts of different type is refused where a common type is required, so is a key that is not there, and the declared size always equals the number of values.",
  ["inputs", "programs"], "all formats with several quantities, shapes, times and locations, and all index expressions valid for them",
  "test_quantity_concept uses one format and a handful of index expressions.",
  ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_types.py"],
  [("Quantity.__getitem__, QType.get_key, time_interpolation, QArray/QDict/QTimeSeries/QField", "mlmc/quantity")],
  [], ["Quantity.samples()", "estimate_mean()"])

p("C14", "Arithmetic on quantities equals arithmetic on their samples",
  "For any expression built from quantities of equal size, numbers and arrays by +, -, *, /, %, in either operand order, "
  "and NumPy functions with at least one quantity, evaluating the resulting quantity on any level gives exactly what the "
  "same expression gives on the sample arrays. Constants combined with constants, before or after meeting a quantity, "
  "behave as their value, evaluating never changes the operands, and the result of +, -, *, /, % has the structure (names, times, "
  "locations, shape) of its first quantity operand.",
  ["programs", "inputs"], "all generated expression trees over quantities and constants, both storages, several levels and chunks",
  "tests check a few fixed expressions through estimated means only.",
  ["mlmc/quantity/quantity.py"],
  [("Quantity.__add__ ... __rmod__, __array_ufunc__, wrap, create_quantity, QuantityConst", "mlmc/quantity/quantity.py")],
  [], ["Quantity.samples()", "estimate_mean()"])

p("C15", "Selection keeps exactly the samples meeting the conditions",
  "Selecting by one or more conditions keeps, on each level, exactly the samples for which every component of every "
  "condition holds in both the fine and the coarse part (fine only on level 0), in the original order, and the estimated "
  "mean equals the estimator applied to those samples only. Conditions compare with <, <=, >, >=, ==, != against numbers or "
  "quantities and combine by logical functions; selecting by something not boolean and combining quantities of different selections or different "
  "storages is refused.",
  ["programs", "inputs"], "all condition trees over generated data with NaN and ties, all levels",
  "tests use a few fixed conditions on one synthetic data set.",
  ["mlmc/quantity/quantity.py"],
  [("Quantity.select, _process_mask, _mask_quantity, set_selection_id, _check_selection_ids", "mlmc/quantity/quantity.py")],
  [], ["Quantity.samples()", "estimate_mean()"])

p("C16", "Estimated mean and variance equal the MLMC estimator of the data",
  "For any stored samples, the estimated mean of a quantity is the sum over levels of the average fine minus coarse "
  "difference (fine alone on level 0), its variance is the sum over levels of the unbiased sample variance of these differences "
  "divided by the number of samples, and the level means and variances are those of the single levels, variances being neither "
  "negative nor lost by rounding when the values are large against their differences; a level with one usable sample has infinite "
  "variance. Samples with NaN in any component, fine or coarse, are left out on their level, and the used and removed "
  "numbers add up to the number collected; if no sample is left at all an error is raised.",
  ["inputs"], "all sample arrays incl. NaN placement, uneven sample counts, one-sample levels, several chunks per level",
  "tests check one data set against expected values with loose statistical tolerance.",
  ["mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity.py"],
  [("estimate_mean, mask_nan_samples, QuantityMean", "mlmc/quantity")], [],
  ["QuantityMean.mean/var/l_means/l_vars/n_samples/n_rm_samples"])

p("C17", "Moment and covariance estimates keep their layout under indexing",
  "Estimates of moments and of covariance matrices of any quantity equal the estimator applied to the moment functions, or "
  "their products, of each scalar component, whether moments are put below or above the quantity structure, with the "
  "documented axis order; a single moment agrees with the corresponding entry. For samples without NaN, indexing an "
  "estimate by name, time, location or array index (int, slice or tuple) gives the same mean, variance, level means and "
  "level variances as estimating the quantity indexed the same way.",
  ["inputs", "programs"], "all formats, index paths, moment families and sizes, samples partly outside the moment domain",
  "tests index one format at a few places.",
  ["mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity.py", "mlmc/estimator.py"],
  [("moments, moment, covariance", "mlmc/quantity/quantity_estimate.py"), ("QuantityMean.__getitem__", "mlmc/quantity/quantity.py"),
   ("Estimate.estimate_moments/estimate_covariance/estimate_diff_vars", "mlmc/estimator.py")], [],
  ["QuantityMean", "Estimate"])

p("C18", "Estimates depend only on the stored data, not on backend, chunks or history",
  "The same samples give the same estimates from the in-memory and the HDF5 storage, from a reopened file, and however "
  "many storage chunks the samples span. Every estimate and every sample read reflects the samples stored at that moment: "
  "adding samples, building further quantities, discarding quantities, or working with several storages in turn never makes a "
  "quantity return values of older data or of another quantity.",
  ["histories", "inputs", "configurations"], "all histories of adding samples, creating and dropping quantities, reading and estimating on one or "
  "two storages, incl. levels larger than one HDF5 chunk",
  "tests build quantities once on final data; none spans several chunks or re-reads after adding samples.",
  ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_estimate.py", "mlmc/tool/hdf5.py", "mlmc/sample_storage.py"],
  [("Quantity.get_cache_key / samples cache / cache_clear", "mlmc/quantity"), ("LevelGroup.chunks", "mlmc/tool/hdf5.py")],
  [("samples cache", "memoised chunks per quantity", "mlmc/quantity/quantity.py")],
  ["Quantity.samples()", "estimate_mean()", "Estimate.get_level_samples()"])

p("C19", "Subsampling draws the requested number of stored samples",
  "Subsampling a quantity gives on each level exactly the requested number of samples, also when the level spans several "
  "chunks, each of them one of the stored (fine, coarse) pairs of that level; every stored sample can be drawn, and "
  "operands of one expression take their values from the same draw. Bootstrap estimates computed from repeated subsamples "
  "are finite and have the shape of the moments, the overall mean is the sum of the level means, variances correspond to "
  "the requested sample numbers, and if all samples of each level are equal they equal the estimate exactly.",
  ["inputs"], "all sample arrays, requested numbers up to the collected number, numbers of chunks",
  "tests check one data set and only average values.",
  ["mlmc/quantity/quantity.py", "mlmc/estimator.py"],
  [("Quantity.subsample/pick_samples", "mlmc/quantity/quantity.py"), ("Estimate.est_bootstrap", "mlmc/estimator.py")], [],
  ["Quantity.samples()", "Estimate.mean_bs_mean ..."])

p("C20", "Moment functions are consistent with each other and their domain",
  "For monomial, Legendre and Fourier moments over any domain, with or without logarithmic transform, the first moment is "
  "one, single evaluation, evaluation of all, of fewer, and after changing the size agree, and values equal the textbook "
  "functions of the linearly mapped argument, for arrays of any shape. Values outside the domain give NaN in safe mode and "
  "are evaluated otherwise; the domain transform maps the domain onto the reference domain, increases strictly and is "
  "inverted by the inverse transform. Derivatives with respect to the mapped argument equal those of the polynomials, "
  "transformed moments are the given linear combination, and equality holds exactly for moments of the same kind, size, "
  "domain and options.",
  ["inputs", "configurations"], "all sizes, domains, log/safe flags, argument arrays",
  "test_moments checks a few points of fixed domains.",
  ["mlmc/moments.py"],
  [("Moments.transform/eval/eval_all/eval_diff/change_size/__eq__, TransformedMoments", "mlmc/moments.py")], [],
  ["eval_all, eval, eval_single_moment, eval_diff, eval_diff2, eval_all_der, transform, inv_transform"])

p("C21", "Orthogonalised moments are orthonormal with respect to the covariance",
  "For any positive semidefinite moment covariance matrix, the orthogonal moments built from it have identity covariance "
  "on the kept subspace, start with the constant moment one, and are linear combinations of the original moments; with a "
  "given tolerance (below one) the dimensions dropped are exactly those whose centred eigenvalue does not exceed it, so "
  "with all eigenvalues above it nothing is dropped.",
  ["inputs"], "all covariance matrices of generated discrete or continuous distributions, all moment families and tolerances",
  "tests run a few distributions through plots.",
  ["mlmc/tool/simple_distribution.py", "mlmc/moments.py"],
  [("construct_ortogonal_moments", "mlmc/tool/simple_distribution.py"), ("TransformedMoments", "mlmc/moments.py")], [],
  ["construct_ortogonal_moments()"])

p("C22", "A reconstructed density is a probability density with the given moments",
  "Whenever the maximum entropy reconstruction reports success for moments of a smooth density on a domain, the "
  "approximate density is non-negative, integrates to one, and (in SimpleDistribution) its moments match the prescribed "
  "ones within the solver tolerance, whatever positive moment errors are given. Its distribution function is zero at and "
  "below the lower end, one at and above the upper end, non-decreasing, equal to the integral of the density for each "
  "argument, and does not depend on the order or grouping of the arguments. Reconstructions of ordinary smooth densities from few "
  "moments succeed apart from rare cases, on domains of any length and by either solver; decay of the density forced at one end (in Distribution) flattens a density growing "
  "towards that end and leaves the other end.",
  ["inputs"], "all generated smooth densities, domains, moment families and sizes; all arrays of evaluation points",
  "tests check two distributions with few points in increasing order.",
  ["mlmc/tool/simple_distribution.py", "mlmc/tool/distribution.py"],
  [("SimpleDistribution.estimate_density_minimize/density/cdf", "mlmc/tool/simple_distribution.py")], [],
  ["density()", "cdf()"])

p("C23", "Sample allocation meets the target variance at minimal cost shape",
  "For any level variances, costs and target variance, the numbers of samples per level are at least two, follow the "
  "optimal allocation proportional to sqrt(variance/cost) for the most demanding moment up to rounding and the documented "
  "cap of levels times variance over target, and predict a variance of at most about twice the target for every moment. "
  "They do not increase when the target grows, do not depend on the unit of cost, and scale inversely with the target.",
  ["inputs"], "all positive variance matrices, cost vectors and targets over many orders of magnitude",
  "tests call it inside one run and never check the numbers.",
  ["mlmc/estimator.py"],
  [("estimate_n_samples_for_target_variance", "mlmc/estimator.py")], [], ["estimate_n_samples_for_target_variance()"])

p("C24", "Level setup, variance regression and domain estimates follow their model",
  "Level parameters go geometrically from the coarsest to the finest step and generated sample numbers geometrically from "
  "the first to the last given number, with given end values and one entry per level. Regression of level variances keeps "
  "level 0, returns the data unchanged if they follow its log-quadratic model or there are fewer than three levels, is "
  "positive and equivariant under scaling, and stays finite when some variances are zero. The domain estimated for a given quantile is the smallest interval containing "
  "the requested quantile range of the fine samples of every level, all components together, NaN ignored.",
  ["inputs"], "all step ranges, level counts, sample numbers, variance tables and sample arrays",
  "tests use one configuration per function.",
  ["mlmc/estimator.py", "mlmc/sampler.py"],
  [("determine_level_parameters, calc_level_params, determine_n_samples, Sampler.sample_range, estimate_diff_vars_regression, estimate_domain",
    "mlmc/estimator.py, mlmc/sampler.py")], [], ["return values"])

p("C25", "Correlated fields have the prescribed covariance, mean and scale",
  "For any points, exponent in [1, 2], correlation length or tensor, the covariance matrix of a spatial correlated field "
  "is symmetric with unit diagonal and entries exp(-(x'Kx)^(alpha/2)), and the factor used for sampling reproduces it "
  "exactly when all terms are used and within the requested precision otherwise, as far as the allowed number of terms "
  "permits. A sample is mu + sigma times the underlying standard field, exponentiated if logarithmic, belongs to the "
  "points set last, and is reproducible from the NumPy seed; independent realisations of a Fourier field on a line or in the plane are Gaussian with this covariance; fields of gstools equal the realisation of gstools for their "
  "seed. Porosity helpers map into their ranges and increase monotonically.",
  ["inputs", "histories"], "all point sets (dim 1-3), field parameters, sequences of set points/sample",
  "tests check statistics of few configurations and never set points twice.",
  ["mlmc/random/correlated_field.py"],
  [("RandomFieldBase.set_points/sample, SpatialCorrelatedField.cov_matrix/svd_dcmp, GSToolsSpatialCorrelatedField", "mlmc/random/correlated_field.py")],
  [("_cov_l_factor, cov_mat", "factor for the current points", "mlmc/random/correlated_field.py")],
  ["cov_matrix()", "svd_dcmp()", "sample()"])

p("C26", "A set of fields fills each region by the right field, dependents included",
  "In one sample of a set of fields every field has its values at exactly the mesh points of its regions and zero "
  "elsewhere, in mesh order; constant fields have their constant, and a dependent field equals its function applied point "
  "by point to the values of its parameter fields (on the same regions) in that same sample. Only the fields requested as "
  "outer appear in the result, correlated fields are drawn anew and independently for each field and sample, even if "
  "fields share one generator, and setting new points replaces the old ones for all fields.",
  ["inputs", "histories", "configurations"], "all field graphs with constants, random and dependent fields, region assignments and orders of region ids",
  "tests use one fixed field set.",
  ["mlmc/random/correlated_field.py"],
  [("Fields.set_points/sample/set_outer_fields, Field.sample", "mlmc/random/correlated_field.py")], [], ["Fields.sample()"])

p("C27", "Mesh files survive writing and reading, element data included",
  "A mesh written in the ASCII format and read again has the same nodes, elements with types, tags and nodes, and physical "
  "regions; meshes of format 1.0 and 2.2 from elsewhere are read likewise, unknown sections skipped. Field data written "
  "for given element ids and read again give for each element exactly the values written, for any number of fields and "
  "components; the extracted mesh lists exactly the elements outside boundary regions with their ids, regions and "
  "barycentres, the constant coordinate of a planar mesh left out.",
  ["inputs"], "all meshes of points, lines, triangles, tetrahedra with generated ids, tags, names and coordinates; all field values",
  "no test of the suite writes and reads a mesh.",
  ["mlmc/tool/gmsh_io.py", "mlmc/tool/flow_mc.py"],
  [("GmshIO.read/write_ascii/write_fields/write_element_data", "mlmc/tool/gmsh_io.py"), ("FlowSim.extract_mesh", "mlmc/tool/flow_mc.py")],
  [], ["GmshIO", "FlowSim.extract_mesh()"])

p("C28", "Flow samples feed one random field realisation to fine and coarse runs",
  "In one flow sample the fine and the coarse simulation receive values of a single realisation of the requested random fields, "
  "evaluated at the element centres of their own meshes, and the realisation depends only on the seed; on level 0 only the "
  "fine simulation runs and the coarse result is zero. Input templates are filled so that every known placeholder, and "
  "nothing else, is replaced, and the result is minus the sum of the outflow-boundary fluxes of the initial time, while a "
  "failed run, a missing outflow or an inflow there is an error. A simulation continuing with existing common files "
  "behaves the same.",
  ["inputs", "configurations"], "all generated mesh pairs, field parameters, seeds, templates and balance files; the external flow solver replaced by a recording stub",
  "flow tests need flow123d and gmsh and are deselected.",
  ["mlmc/tool/flow_mc.py"],
  [("FlowSim.level_instance/calculate/make_fields/generate_random_sample/_extract_result, substitute_placeholders", "mlmc/tool/flow_mc.py")],
  [], ["files given to the flow solver", "result pair"])

p("C29", "Integrals over a given density are what they are called",
  "For a density on the domain of any moment functions (plain, logarithmic or transformed), the exact and semi-exact moments and "
  "covariance matrices are the integrals of the moment functions, and of their products, times the density, up to the integration "
  "tolerance. The Kullback-Leibler divergence and the L2 distance of two densities are those integrals over the given interval, positive, "
  "with the correction for imperfect normalisation, and finite where the second density vanishes.",
  ["inputs"], "all generated densities (smooth or with a narrow peak), domains, families, sizes and transforming matrices",
  "tests use them only as reference for other computations, on a few distributions.",
  ["mlmc/tool/simple_distribution.py", "mlmc/tool/distribution.py"],
  [("compute_exact_moments, compute_semiexact_moments, compute_exact_cov, compute_semiexact_cov, KL_divergence, L2_distance", "mlmc/tool/simple_distribution.py, mlmc/tool/distribution.py")],
  [], ["return values"])

p("C30", "A complete run ends with the estimates of its simulation at the target",
  "For any simulation that is a function of seed and level, with some samples failing or giving NaN, any pool and any storage, the documented "
  "loop of estimating variances and costs and adding samples up to a target variance ends, with at least the last estimated number of samples on "
  "every level and every sample finished. The stored contents, the costs, and the estimated moments, variances and covariances then equal those computed from "
  "the simulation's results over exactly the scheduled ids. Continuing with another target, also with the file reopened by a new sampler, only adds samples and keeps this true.",
  ["histories", "configurations", "inputs"], "all generated simulations, result formats, levels, pools, storages, moments and sequences of target variances",
  "tests run the loop for one simulation and check only the constant moment.",
  ["mlmc/sampler.py", "mlmc/estimator.py", "mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/quantity/quantity_estimate.py"],
  [("Sampler, SamplingPool, SampleStorage, Estimate, estimate_n_samples_for_target_variance together", "mlmc")],
  [], ["sample_storage", "Estimate.estimate_moments/estimate_diff_vars/estimate_covariance"])

p("C31", "The density built from stored samples matches their moments",
  "For a scalar quantity over any storage, the estimator's density construction returns orthonormal moments with respect to the estimated "
  "covariance and a non-negative density on the moments' domain that integrates to one and, whenever the solver reports success, has the multilevel estimates of these moments. "
  "On a single level it is near the empirical distribution of the usable samples, and quantities with several components are refused.",
  ["inputs", "configurations"], "all generated sample sets, levels, families, domains, tolerances and both storages",
  "tests reconstruct one distribution and look only at a plot or a divergence.",
  ["mlmc/estimator.py", "mlmc/tool/simple_distribution.py", "mlmc/quantity/quantity_estimate.py"],
  [("Estimate.construct_density, SimpleDistribution.estimate_density_minimize, construct_orthogonal_moments", "mlmc/estimator.py, mlmc/tool/simple_distribution.py")],
  [], ["density values", "orthogonal moments", "solver result"])

p("C32", "PBS jobs keep the packing limits and carry the requested settings",
  "Scheduled samples are packed into PBS jobs in scheduling order; a job is submitted as soon as the sum of its task sizes exceeds one or it has more than a thousand "
  "samples, and what remains is submitted by the next poll, so no sample is left out or submitted twice. The submitted script asks for exactly the given nodes, cores, memory, "
  "walltime, queue, name and extra flags, runs the given environment lines in their order and then this job, so a batch system running it produces every sample's result.",
  ["histories", "configurations"], "all generated task sizes, scheduling sequences, polls and settings",
  "tests need a PBS server and are skipped.",
  ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
  [("SamplingPoolPBS.schedule_sample/execute/pbs_common_setting/_create_script, PbsJob.command_params/calculate_samples", "mlmc/sampling_pool_pbs.py, mlmc/tool/pbs_job.py")],
  [], ["submitted scripts", "scheduled files", "results returned by get_finished"])

p("C33", "Plots show the data they are given",
  "A distribution plot contains, for every added distribution, its density and distribution function over its whole domain, the exact ones over the union of all domains, "
  "the requested error curves, and a normalised histogram of raw samples. Variance plots show, for exactly the requested number of moments, the given level variances (divided by the numbers of samples and stacked in the breakdown), "
  "plots of bootstrap estimates and of series of runs show the means with their variances, the total and level variances and their regression, and eigenvalue plots show the given values in descending order with their errors and threshold, whatever the order, number and sign of the values; the figure is saved in the given file.",
  ["inputs", "configurations"], "all generated distributions, domains, samples, variance tables, numbers of moments and eigenvalues",
  "no test reads a figure back; most plots are not drawn by any test.",
  ["mlmc/plot/plots.py", "mlmc/estimator.py"],
  [("Distribution, VarianceBreakdown, Variance, Eigenvalues, moments, moments_subset", "mlmc/plot/plots.py"), ("Estimate.plot_variances", "mlmc/estimator.py")],
  [], ["the artists of the drawn figure", "the saved file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
