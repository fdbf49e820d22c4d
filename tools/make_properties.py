"""Source of /verif/properties.jsonl (kept as Python so that it can be reviewed and edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe))))

p("C01", "Checkpoint and pickle files are replaced atomically",
  "Whenever bilby rewrites a sampler checkpoint or a pickled data file (everything written through safe_file_dump; result files are the subject of C05), a process that dies, fails or is interrupted by another write at any point "
  "leaves under the final name either the complete previous content or the complete new content, never a mixture or a truncated file. "
  "A later write after such a failure succeeds, and a write that completes leaves exactly the new content under the final name.",
  ["crash_points", "histories"],
  "every sequence of writes, and for each write every file-system operation at which the process stops or an error is raised",
  "tests write each file once and successfully; they never stop a write half way or follow a failed write with another",
  ["bilby/core/utils/io.py", "bilby/core/sampler/dynesty.py", "bilby/bilby_mcmc/sampler.py", "bilby/core/sampler/ptemcee.py", "bilby/core/sampler/emcee.py", "bilby/gw/detector/interferometer.py", "bilby/gw/detector/networks.py", "bilby/core/result.py"],
  [("safe_file_dump writes a temporary file then moves it", "bilby/core/utils/io.py:safe_file_dump")],
  [("final file", "content a later run would resume from", "resume_file / *.pkl on disk")],
  ["bytes on disk after each injected crash"])

p("C02", "A nested-sampling run resumes from its last completed checkpoint",
  "A dynesty run that is stopped (by a crash at any point, or by a signal before or during sampling, while the likelihood is evaluated or while the live points are being added) and started again with the same settings continues from the last completed checkpoint: "
  "no iteration, live point or sample recorded in it is lost, duplicated or altered, the accumulated sampling time is carried over exactly once, and the final result has the settings of the run. "
  "If no usable checkpoint exists, or resuming is switched off, it starts from the beginning.",
  ["crash_points", "histories", "configurations"],
  "every placement of interruptions relative to checkpoints, repeated any number of times, with and without an unusable checkpoint file",
  "tests run a sampler to completion or interrupt it once in one place; they do not compare what was saved with what was restored",
  ["bilby/core/sampler/dynesty.py", "bilby/core/sampler/base_sampler.py"],
  [("write_current_state/read_saved_state", "bilby/core/sampler/dynesty.py"), ("_run_external_sampler_with_checkpointing", "bilby/core/sampler/dynesty.py")],
  [("sampler iteration, ncall, saved run, live points", "nested-sampling state", "resume pickle"), ("sampling_time", "seconds spent so far", "sampler.kwargs in the pickle")],
  ["resume pickle", "Result.sampling_time", "Result.nested_samples"])

p("C03", "A Bilby-MCMC run resumes from its last checkpoint",
  "A Bilby-MCMC run that is stopped and started again continues with the chains, positions, temperatures and sampling time stored at its last completed checkpoint, "
  "nothing lost, repeated or altered. A checkpoint made with incompatible parallel-tempering settings is refused with an error rather than continued, and without a usable checkpoint the run starts afresh.",
  ["crash_points", "histories", "configurations"],
  "every placement of stops relative to checkpoints and every pair of settings before and after",
  "the test-suite runs the sampler end to end on one configuration and does not compare state across a restart",
  ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"],
  [("write_current_state/read_current_state", "bilby/bilby_mcmc/sampler.py:Bilby_MCMC")],
  [("PT ensemble", "chains for each temperature and ensemble", "resume pickle")],
  ["resume pickle", "chain contents"])

p("C04", "Saving and loading a result preserves it in every format",
  "A result written to disk as JSON, compressed JSON, HDF5 or pickle and read back equals the original: posterior, samples, evidences, priors, "
  "parameter lists, injection parameters, meta-data and every other stored quantity keep their values and keys (and, in JSON and pickle files, their order), to within the container conversions: HDF5 turns tuples into dictionaries and lists of numbers into arrays. "
  "A result holding something a format can not store is saved complete as a pickle instead. "
  "The same file name is computed for writing and for reading.",
  ["inputs", "configurations", "histories"],
  "every result whose fields are built from the supported value types, nested to any depth, in every format and with every naming of the file, repeated saves and loads included",
  "tests round-trip one or two fixed results with a few meta-data values",
  ["bilby/core/result.py", "bilby/core/utils/io.py"],
  [("save_to_file/from_json/from_hdf5/from_pickle", "bilby/core/result.py"), ("BilbyJsonEncoder/decode_bilby_json/encode_for_hdf5/decode_from_hdf5", "bilby/core/utils/io.py")],
  [("result fields", "attributes stored in the file", "Result")],
  ["Result attributes after read_in_result"])

p("C05", "Saving a result never silently loses an earlier one",
  "Saving a result under a name that exists keeps the earlier file, complete, under the name with '.old' appended unless overwriting was asked for, and the new file always holds the new result in full; a save that fails leaves no partial file and puts the result into a pickle, which never replaces an existing one. "
  "Reading finds the result by outdir, label and extension or by file name, picks an existing format, and reports a missing or unusable file as an error instead of returning something else.",
  ["histories", "inputs", "configurations"],
  "every sequence of saves, overwrites, failed saves and reads over several formats, labels and directories",
  "tests exercise one save over one existing file",
  ["bilby/core/result.py", "bilby/core/utils/io.py"],
  [("move_old_file", "bilby/core/utils/io.py"), ("result_file_name/read_in_result/read_in_result_list", "bilby/core/result.py")],
  [("directory", "name to content map", "outdir")], ["directory listing and file content"])

p("C06", "run_sampler reuses, resumes or recomputes exactly as configured",
  "A call to run_sampler returns an existing result exactly if a readable one is stored under the default name for this label and output directory, its search, fixed and constrained parameters and the likelihood's metadata match and clean was not requested (for that call); otherwise it runs the sampler, resuming only when allowed. "
  "Every completed call that saves ends with the returned result stored on disk, keeping an earlier file of that name as '.old', a failing run changes no stored result, and the returned result describes this call's label, priors, search, fixed and constrained parameters, injection parameters and evidence relations.",
  ["histories", "configurations", "inputs"],
  "every sequence of calls with any combination of clean, resume, changed priors, labels, formats and previously stored files",
  "each test makes a single call in an empty directory",
  ["bilby/core/sampler/__init__.py", "bilby/core/sampler/base_sampler.py", "bilby/core/result.py"],
  [("check_cached_result/_compare", "bilby/core/sampler/base_sampler.py"), ("run_sampler", "bilby/core/sampler/__init__.py")],
  [("stored result", "label, settings", "outdir")], ["number of sampler executions", "returned and stored result"])

p("C07", "Combining results pools evidence and samples consistently",
  "Combining a list of results of identical analyses gives the evidence-averaged log evidence for nested sampling (with the noise evidence and Bayes factor consistent and the error of the averaged evidence propagated from those errors which are known), draws posterior samples from each in proportion to its evidence, "
  "and concatenates chains of MCMC runs equally weighted. Results that differ in parameters, sampler kind, priors or data are refused, and the input results are left unchanged by a combination.",
  ["inputs", "histories"],
  "every list of results, any evidences, sample counts, orders and mixtures of compatible and incompatible results",
  "tests combine one or two equal results",
  ["bilby/core/result.py"], [("ResultList.combine and consistency checks", "bilby/core/result.py:ResultList")],
  [("result list", "evidences, samples", "ResultList")], ["combined result"])

p("C08", "Reweighting uses the right weight for every sample, interrupted or not",
  "Reweighting a result to another likelihood and/or prior gives every sample the weight likelihood ratio times prior ratio evaluated at that sample, the evidence is multiplied by the mean weight and the accepted sample set is drawn with those weights. "
  "Writing checkpoints, being interrupted at any sample and resuming changes none of the weights, and the original result is not modified.",
  ["inputs", "crash_points", "histories"],
  "every sample set, every choice of old/new likelihood and prior, conversion, number of processes and every point of interruption",
  "tests reweight without interruption and only compare averages",
  ["bilby/core/result.py"], [("get_weights_for_reweighting/reweight/rejection_sample", "bilby/core/result.py")],
  [("old/new log likelihood and prior arrays", "per-sample values", "resume file")], ["returned weights and result"])

p("C09", "A prior dictionary depends only on its current content",
  "After any sequence of assignments, deletions, updates, copies, evaluations and samplings, a prior dictionary behaves exactly like one newly built with the same entries: same keys, same fixed/free split, same rescaling, probabilities, normalisation and draws for a given random state. "
  "A copy is independent of its original.",
  ["histories"],
  "every history of mutating and evaluating operations on (conditional) prior dictionaries",
  "tests build a dictionary once and evaluate it; caches that survive a later mutation are never exercised",
  ["bilby/core/prior/dict.py"], [("PriorDict/ConditionalPriorDict __setitem__, __delitem__, copy, caches", "bilby/core/prior/dict.py")],
  [("entries", "key to prior", "PriorDict")], ["rescale, prob, ln_prob, sample, normalisation"])

p("C10", "Conditional priors are resolved in dependency order",
  "For every dependency graph, a conditional prior dictionary evaluates, rescales and samples each parameter given the values of the parameters it depends on that belong to the same draw, whatever order the keys are listed or requested in, "
  "so the joint density is the product of the conditionals and rescale of any key order returns values matched to those keys. Missing or circular dependencies are refused with an error.",
  ["inputs", "histories", "configurations"],
  "every dependency graph over the parameters, every key order and every order and subset of requested keys",
  "tests use one fixed chain of four dependent parameters",
  ["bilby/core/prior/dict.py", "bilby/core/prior/conditional.py"],
  [("_resolve_conditions, sample_subset, rescale, prob", "bilby/core/prior/dict.py:ConditionalPriorDict")],
  [("dependency graph", "required variables", "Prior.required_variables")], ["values returned per key"])

p("C11", "Constraints remove exactly the excluded region",
  "Every sample drawn from a prior dictionary with constraints satisfies all of them, exactly the requested number is returned, points violating any constraint have zero probability (log probability minus infinity) and points satisfying all of them have the unconstrained density divided by the allowed fraction. "
  "Constraint entries are never sampled, and the sampler treats a violating point as having zero likelihood without evaluating the likelihood.",
  ["inputs", "histories"],
  "every constraint region, conversion function, batch size and point, scalar or array",
  "tests sample one constrained prior statistically",
  ["bilby/core/prior/dict.py", "bilby/core/prior/base.py", "bilby/core/sampler/base_sampler.py"],
  [("evaluate_constraints, sample_subset_constrained, normalize_constraint_factor, check_prob", "bilby/core/prior/dict.py")],
  [("constraint set", "keys with Constraint priors", "PriorDict")], ["samples, prob, ln_prob"])

p("C12", "Joint priors answer only from one complete request",
  "Parameters that share a joint distribution are sampled, rescaled and evaluated together: whatever order and interleaving the individual parameters are requested in, all values returned for one draw come from the same joint draw, "
  "the joint density is counted exactly once per complete request, and points outside any parameter's bounds have zero probability, for single values and arrays alike. A completed request leaves no residue that affects the next one.",
  ["histories", "inputs"],
  "every order and interleaving of per-parameter requests, repeated requests, subsets and batch sizes",
  "tests request parameters in definition order only",
  ["bilby/core/prior/joint.py", "bilby/core/prior/dict.py"],
  [("JointPrior.sample/rescale/ln_prob with shared request state", "bilby/core/prior/joint.py")],
  [("requested/rescale/sampled parameters", "shared partial request", "BaseJointPriorDist")], ["returned values"])

p("C13", "Priors survive being written and read",
  "Every prior and prior dictionary written as a prior file, as its printed representation or as JSON and read back compares equal to the original and behaves the same, including names, labels, units, boundaries, nested arguments, constraints, joint and conditional priors (joint ones in files and JSON; a text with both kinds of quotes, cosmologies without a name, conversion functions of the user and Dirichlet priors are not covered). "
  "Malformed or unknown descriptions are refused with an error.",
  ["inputs", "histories"],
  "every supported prior class with every combination of its arguments, in every container, order and format, repeatedly",
  "tests round-trip one instance of each class with default optional arguments",
  ["bilby/core/prior/base.py", "bilby/core/prior/dict.py", "bilby/core/utils/io.py"],
  [("__repr__/from_repr/_parse_argument_string", "bilby/core/prior/base.py"), ("to_file/from_file/to_json/from_json", "bilby/core/prior/dict.py")],
  [("prior description", "class and arguments", "text/JSON")], ["equality and behaviour of the restored prior"])

p("C14", "One-dimensional priors are consistent distributions",
  "For every one-dimensional prior (Constraint excluded; Fermi-Dirac has no cumulative distribution), rescaling maps the unit interval monotonically onto its support, the cumulative distribution inverts it and goes from 0 to 1, the density is non-negative, zero outside the support, integrates to the cumulative distribution, and its logarithm is the log density, for scalars and arrays alike. "
  "This stays true after its bounds or defining values are changed (of cosmological and aligned-spin priors only the bounds, of tabulated ones the bounds and the table over the full range).",
  ["inputs", "histories"],
  "every prior class, admissible parameters, every argument and every sequence of attribute changes",
  "the repository's prior tests sample fixed instances; after attribute changes only a few are checked",
  ["bilby/core/prior/analytical.py", "bilby/core/prior/interpolated.py", "bilby/core/prior/slabspike.py", "bilby/core/prior/base.py"],
  [("rescale/prob/cdf/ln_prob of every class", "bilby/core/prior/analytical.py")],
  [("bounds and defining values", "prior parameters", "Prior attributes")], ["rescale, cdf, prob, ln_prob values"])

p("C15", "The sampler evaluates prior and likelihood at exactly the proposed point",
  "For every proposed point, a sampler evaluates the likelihood (ratio) with the search parameters set to that point in the right order together with all fixed parameters, the prior transform and log prior of the same point, and for nested samplers a zero likelihood where a prior constraint excludes it. "
  "Search, fixed and constraint parameters partition the prior keys, and the log likelihoods, evidence, noise evidence and Bayes factor stored in the result satisfy their defining relations with and without use of the likelihood ratio.",
  ["inputs", "configurations", "histories"],
  "every mixture of free, fixed and constraint priors, every order, every point and both likelihood conventions",
  "tests check one two-parameter model with default options",
  ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/__init__.py"],
  [("_initialise_parameters, log_likelihood, log_prior, prior_transform, NestedSampler", "bilby/core/sampler/base_sampler.py"), ("evidence bookkeeping", "bilby/core/sampler/__init__.py")],
  [("search/fixed/constraint keys", "partition of the prior keys", "Sampler")], ["parameters the likelihood sees", "result evidences"])

p("C16", "MCMC steps accept or reject whole consistent points",
  "In every Bilby-MCMC step the stored next point is either the proposal, accepted with the Metropolis-Hastings probability for the chain's temperature including the proposal's asymmetry factor, or an exact copy of the current point. "
  "The log likelihood and log prior stored with every point are those of that very point, points with zero prior or likelihood are never accepted, and acceptance counters equal the decisions made.",
  ["schedules", "inputs", "histories"],
  "every sequence of proposals, random numbers, temperatures and prior/likelihood values, including infinities",
  "end-to-end tests only check that sampling finishes",
  ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"],
  [("BilbyMCMCSampler.step/accept_proposal/reject_proposal", "bilby/bilby_mcmc/sampler.py")],
  [("current sample", "point with its logl and logp", "Chain")], ["chain content after each step"])

p("C17", "Parallel tempering exchanges states without losing any",
  "A temperature swap either exchanges the current states of two neighbouring chains of the same ensemble completely, so that both chains continue from the exchanged states, or leaves both unchanged, and is accepted with the parallel-tempering probability. "
  "Ensemble moves use only the states of the other members at the same temperature; the untempered chain always has inverse temperature one, the ladder stays ordered, and no state is duplicated or lost by swaps.",
  ["schedules", "histories"],
  "every interleaving of steps, swaps, ensemble moves and ladder adaptation over every number of chains and ensembles",
  "tests run the sampler end to end without inspecting a swap",
  ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"],
  [("swap_tempered_chains, ensemble_step, adapt_temperatures", "bilby/bilby_mcmc/sampler.py:BilbyPTMCMCSampler")],
  [("current states per chain", "samples with logl/logp", "BilbyMCMCSampler.chain")], ["current states before and after"])

p("C18", "A chain returns what was appended, burned-in and thinned as stated",
  "A stored MCMC chain returns, for any sequence of appends, extensions, replacements and reads, exactly the points that were put in, in order, with the current point being the last one. "
  "Its sample count and extracted samples agree with its stated burn-in index and thinning, growing never loses data, and summary quantities reflect all points present when asked.",
  ["histories"],
  "every history of appends, growth at block boundaries, index reads and writes and summary queries",
  "tests append a few hundred points once",
  ["bilby/bilby_mcmc/chain.py"], [("Chain append/_extend_chain_array/__getitem__/samples/nsamples/tau", "bilby/bilby_mcmc/chain.py")],
  [("points", "array with position", "Chain")], ["chain reads"])

p("C19", "Proposals respect boundaries and cycles",
  "Every proposal returns a point with all search parameters present, non-proposed parameters unchanged, periodic parameters wrapped and reflective parameters folded into their range by the correct amount for any distance outside, and leaves the stored current point untouched. "
  "Proposal cycles use proposals in proportion to their weights and never drop or invent one, and the reported asymmetry factor equals the log ratio of reverse to forward proposal densities.",
  ["inputs", "schedules"],
  "every proposal kind, current point, step size, boundary type, subset and cycle state",
  "tests call each proposal a few times without boundaries being crossed more than once",
  ["bilby/bilby_mcmc/proposals.py", "bilby/core/sampler/proposal.py", "bilby/bilby_mcmc/proposals.py"],
  [("apply_boundaries, ProposalCycle, propose", "bilby/bilby_mcmc/proposals.py"), ("JumpProposal", "bilby/core/sampler/proposal.py")],
  [("sample", "point in the box", "Sample")], ["proposed point"])

p("C20", "Sampler settings reach the sampler under any equivalent name",
  "For every sampler, a setting given under any documented equivalent name (live points, walkers, pool size, seed, iterations; of several at once, one of them) reaches the underlying sampler under its native name with the given value, an explicitly given native name wins over equivalents, defaults fill the rest, and unknown settings are dropped without affecting others. "
  "The caller's arguments and the class defaults are never modified.",
  ["inputs", "configurations", "histories"],
  "every sampler and every combination of native, equivalent and unknown setting names, over repeated constructions",
  "tests try single equivalents for each sampler",
  ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/dynesty.py", "bilby/core/sampler/emcee.py", "bilby/core/sampler/ptemcee.py", "bilby/bilby_mcmc/sampler.py"],
  [("kwargs setter/_translate_kwargs", "bilby/core/sampler/base_sampler.py and subclasses")],
  [("kwargs", "settings dictionary", "Sampler.kwargs")], ["Sampler.kwargs"])

p("C21", "Interrupting a run checkpoints it and releases its resources",
  "When a termination, interrupt or alarm signal arrives at any time during a run, the state reached is written (whatever further signals arrive meanwhile), the worker processes are shut down and the process exits with the configured code; the next run continues from that state and evaluates the likelihood only for what is left. Signals to a worker process have no effect. "
  "Outside a run, i.e., before it starts and after it has completed or failed, signals have the meaning they had before. Samplers which support a worker pool create it once per run with the requested number of processes, evaluate the likelihood in it, and close it when the run ends in whichever way. (Pools supplied by the user, and samplers which hand control to compiled code, are not covered.)",
  ["schedules", "fault_sequences"],
  "every point of the run and every signal, repeated signals, with and without a pool",
  "tests deliver one signal at one point",
  ["bilby/core/sampler/base_sampler.py"], [("signal_wrapper/write_current_state_and_exit/_setup_pool/_close_pool", "bilby/core/sampler/base_sampler.py")],
  [("pool", "worker processes", "Sampler.pool"), ("handlers", "signal dispositions", "process")], ["exit code, checkpoint, handlers"])

p("C22", "Strain data views stay coherent",
  "At every moment the time-domain strain, frequency-domain strain, arrays of times and frequencies, frequency mask, window and duration of a detector's data describe the same, most recently set data: setting data by any route replaces all views, the frequency-domain view is the masked Fourier transform of the time-domain data, "
  "and changing the frequency band, notches, roll-off, start time or sampling (by setting data again) is reflected in every later read. Time-domain data have an even number of samples.",
  ["histories", "inputs"],
  "every sequence of setting data in either domain, changing band, notches, roll-off, sampling and reading any view",
  "tests set data once on a fresh object",
  ["bilby/gw/detector/strain_data.py", "bilby/core/series.py"],
  [("InterferometerStrainData setters and lazily computed views", "bilby/gw/detector/strain_data.py"), ("CoupledTimeAndFrequencySeries", "bilby/core/series.py")],
  [("strain, arrays, mask", "views of the data", "InterferometerStrainData")], ["all public views"])

p("C23", "Detector networks stay consistent and injections add up",
  "A detector list only ever holds detectors whose duration, sampling rate and start time agree, however it is built and extended (building, append, insert, extend, +=), and a refused insertion or injection leaves the list unchanged. "
  "Injecting a signal adds the projected signal exactly once to each detector's data within its band, in any order and number of injections, and the recorded signal-to-noise ratios are those of that signal in that data.",
  ["histories", "inputs"],
  "every sequence of building, appending, inserting, injecting and reading over any set of detectors",
  "tests inject one signal into one detector",
  ["bilby/gw/detector/networks.py", "bilby/gw/detector/interferometer.py", "bilby/gw/detector/psd.py"],
  [("InterferometerList._check_interferometers/append/extend/insert", "bilby/gw/detector/networks.py"), ("inject_signal", "bilby/gw/detector/interferometer.py")],
  [("detector list", "members and their data settings", "InterferometerList")], ["list content, strain, meta data"])

p("C24", "Model evaluations depend only on their inputs, not on history",
  "The waveform, power spectral density and likelihood returned for given parameters, data and settings are the same whatever was evaluated before, cached or changed and changed back; evaluating never alters the parameters given by the caller, and a change of any input (parameters, sampling, model, arguments, noise curve) is reflected in the next value. A likelihood is bound to the data it had at its first evaluation.",
  ["histories", "inputs"],
  "every sequence of evaluations and changes of parameters and settings",
  "tests evaluate fresh objects once or twice",
  ["bilby/gw/waveform_generator.py", "bilby/gw/detector/psd.py", "bilby/core/likelihood.py", "bilby/gw/likelihood/base.py", "bilby/hyper/model.py"],
  [("WaveformGenerator._cache", "bilby/gw/waveform_generator.py"), ("PowerSpectralDensity._cache", "bilby/gw/detector/psd.py"), ("JointLikelihood parameter sharing", "bilby/core/likelihood.py"), ("Model cache", "bilby/hyper/model.py")],
  [("cache", "last inputs and value", "WaveformGenerator/PowerSpectralDensity/Model")], ["returned values"])

p("C25", "Source-parameter conversion is complete, consistent and non-destructive",
  "Converting gravitational-wave source parameters from any sufficient set of mass, spin, distance and tidal parameters yields all waveform parameters, mutually consistent with the ones given, identical whichever equivalent set was given; given values are kept, the caller's dictionary is not modified, and exactly the keys reported as added were added. "
  "The redundancy test of a prior reports a parameter exactly when the prior already has it or samples as many parameters of its group (masses, tilts, azimuths, inclination, distance, tides) as the group has degrees of freedom.",
  ["inputs"],
  "every subset of the supported parameters, in any order, scalar or array",
  "tests convert a handful of fixed parameter sets",
  ["bilby/gw/conversion.py", "bilby/gw/prior.py"],
  [("convert_to_lal_binary_black_hole_parameters / ...neutron_star...", "bilby/gw/conversion.py"), ("test_redundancy", "bilby/gw/prior.py")],
  [("parameter dictionary", "known keys", "dict")], ["converted dictionary and added keys"])

p("C26", "Grid posteriors marginalise consistently",
  "A posterior evaluated on a grid (of increasing points, with independent priors) assigns every grid point the likelihood and prior of exactly that point, its evidence is the integral over the grid, and marginalising over any set of parameters in any order gives the same marginal as marginalising them together, normalised and associated with the right axis. A saved grid read back is equal.",
  ["inputs", "histories"],
  "every grid shape, dimension order and order of marginalisation",
  "tests use one two-dimensional grid",
  ["bilby/core/grid.py"], [("Grid.marginalize*", "bilby/core/grid.py")], [("grid", "ln likelihood, ln posterior", "Grid")], ["marginals, evidence"])

p("C27", "Random draws are reproducible from the seed",
  "After setting the global seed, every random draw bilby itself makes in the process (priors, conditional and joint priors, noise, proposals, resampling, combination of results, phase reconstruction; not the draws of external samplers with generators of their own) is a function of the seed and of the sequence of calls made since: the same sequence gives the same values, a different seed different ones, and re-seeding restarts the sequence.",
  ["histories", "configurations"],
  "every sequence of draws from any part of the library between seedings",
  "tests compare single draws of a few priors",
  ["bilby/core/utils/random.py", "bilby/core/prior", "bilby/core/result.py", "bilby/gw/detector/psd.py", "bilby/core/utils/series.py"],
  [("Generator.rng and seed", "bilby/core/utils/random.py")], [("generator", "global random state", "bilby.core.utils.random")], ["draws"])

p("C28", "Samplers working in a temporary directory keep their output",
  "For samplers that run in a temporary directory, output found in the output directory is available to a resumed run, all output is in the output directory after a run ends, by completion or by signal, the temporary directory and link are removed, a fresh run does not see old output, and sampling time accumulates over resumed runs.",
  ["crash_points", "histories", "configurations"],
  "every sequence of fresh, resumed, finished and interrupted runs with and without a temporary directory",
  "tests check one pass of a mocked sampler",
  ["bilby/core/sampler/base_sampler.py"], [("_TemporaryFileSamplerMixin", "bilby/core/sampler/base_sampler.py")],
  [("output and temporary directories", "file trees", "outputfiles_basename")], ["directory contents, sampling time"])

p("C29", "Ensemble MCMC runs resume without losing or repeating steps",
  "An ensemble sampler run (emcee, ptemcee) that is interrupted and resumed completes the configured number of iterations in total, keeps every step up to the last checkpoint unchanged with its log likelihood and log prior, and discards the stated burn-in only.",
  ["crash_points", "histories"],
  "every placement of interruptions between checkpoints and any number of resumes",
  "tests run to completion once",
  ["bilby/core/sampler/emcee.py", "bilby/core/sampler/ptemcee.py"],
  [("write_current_state/_previous_iterations/_set_pos0_for_resume", "bilby/core/sampler/emcee.py"), ("checkpoint/ResumeData", "bilby/core/sampler/ptemcee.py")],
  [("chain", "steps per walker", "sampler pickle")], ["chain, samples"])

p("C30", "Joint and hierarchical likelihoods combine their parts exactly",
  "A joint likelihood equals the sum of its members evaluated at the same parameters, whichever parameters each member uses and however they are set; a population model equals the product of its factors, each called with exactly the parameters it declares, "
  "and the hierarchical likelihood sums over events the mean of model over sampling prior, for any sample sets, sampling prior forms and evidence inputs.",
  ["inputs", "histories"],
  "every set of members with overlapping or disjoint parameters, every sequence of parameter changes",
  "tests use two or three members with one set of values",
  ["bilby/core/likelihood.py", "bilby/hyper/model.py", "bilby/hyper/likelihood.py"],
  [("JointLikelihood", "bilby/core/likelihood.py"), ("Model.prob", "bilby/hyper/model.py"), ("HyperparameterLikelihood", "bilby/hyper/likelihood.py")],
  [("parameters", "shared dictionary", "Likelihood.parameters")], ["log likelihoods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
