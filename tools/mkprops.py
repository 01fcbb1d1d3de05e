"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

PIMC = "pibronic/pimc/pimc.py"
VIO = "pibronic/vibronic/vibronic_model_io.py"
PP = "pibronic/data/postprocessing.py"
FSF = "pibronic/data/file_structure.py"
FN = "pibronic/data/file_name.py"
ST = "pibronic/stats/stats.py"
JK = "pibronic/stats/jackknife.py"
ES = "pibronic/vibronic/electronic_structure.py"
JB = "pibronic/server/job_boss.py"
JW = "pibronic/julia_wrapper.py"
SEQ = "pibronic/vibronic/orthonormal/sequences.py"
CRE = "pibronic/vibronic/orthonormal/create.py"
OP = "pibronic/vibronic/model_op.py"
HF = "pibronic/vibronic/model_h.py"

prop("C01", "Every sampled path gets the exact discretised weights of both models",
     "For every path that a sampling run draws, the stored numerator divided by the stored denominator equals the ratio of the two discretised path-integral weights of that same path: the trace over states of the product over beads of (exponentiated coupling potential x displaced-oscillator propagator) of the vibronic model, over the state-summed product of displaced-oscillator propagators of the sampling model. "
     "The plus and minus numerators are the same expression evaluated consistently at the two shifted inverse temperatures beta +/- delta_beta, in every factor that depends on temperature. "
     "This holds whatever the number of states of either model, modes, beads, temperature, the terms present (off-diagonal energies, linear, quadratic), and whatever ran before on the same objects.",
     ["inputs", "configurations", "histories"],
     "all vibronic models (A>=1 states, N>=1 modes, linear and quadratic couplings), all sampling models with any number of states, all temperatures, beads>=3, block layouts, and every path drawn",
     "The tests only check array shapes and hard-coded examples for 2 states; they never compare a stored weight with an independently computed one for a drawn path.",
     [PIMC],
     [("propagator (O) matrices", PIMC + ":build_o_matrix"), ("coupling exponentials and state trace", PIMC + ":diagonalize_coupling_matrix, build_numerator"), ("denominator", PIMC + ":build_denominator"), ("temperature constants", PIMC + ":TemperatureDependentClass"), ("folding of diagonal terms", PIMC + ":ModelVibronic.precompute, ModelSampling.precompute"), ("drivers", PIMC + ":block_compute, block_compute_pm")],
     [("sampled path R", "bead coordinates of each drawn path", PIMC + ":BoxData.qTensor"), ("scaled_g, scaled_rho, scaled_gofr_plus/minus", "the weights that are saved", PIMC + ":BoxResult")],
     ["scaled arrays of the result object and the saved .npz after block_compute / block_compute_pm"])

prop("C02", "Paths follow the sampling distribution, so the averages are unbiased",
     "The paths a run draws are independent draws from exactly the normalised distribution that the sampling model defines: states chosen with their Boltzmann weights (energy, reorganisation shift) and, given a state, Gaussian bead coordinates centred at that state's minimum with the ring-polymer covariance. "
     "Consequently the mean of numerator/denominator and of both shifted numerators converges to the ratio of the exact discretised partition functions, for every sampling model, temperature and number of beads, within the statistical error of the run.",
     ["inputs", "configurations"],
     "all sampling models (any number of states, displacements, frequencies, energies), temperatures, bead numbers, and vibronic models whose exact discretised partition function is computable",
     "Distributional statements: a unit test that samples a few points cannot see a biased mixture weight, a wrong covariance or a correlated stream; the repository has no test of the sampler's distribution.",
     [PIMC],
     [("mixture weights", PIMC + ":ModelSampling.compute_weight_for_each_state"), ("covariance and means", PIMC + ":ModelSampling.compute_sampling_constants"), ("draws", PIMC + ":ModelSampling.draw_sample"), ("collective-to-bead transform", PIMC + ":BoxData.transform_sampled_coordinates")],
     [("cc_samples, qTensor", "collective and bead coordinates", PIMC)],
     ["moments of the drawn paths; block means of the stored ratios"])

prop("C03", "A run computes and saves every requested sample exactly once",
     "A sampling run over B blocks of size b produces exactly B*b finite samples, each computed once from its own fresh path and none left unset, overwritten or repeated, and the saved result file holds exactly these values, the sample count, and the model fingerprints. "
     "The file name determines and is determined by bead count, temperature (two decimals) and job number, so that runs with different parameters or job numbers never overwrite one another, and loading the file restores identical arrays. "
     "A run whose sample count is not a whole number of blocks never produces a file that contains unset samples as if they were data.",
     ["inputs", "configurations", "histories"],
     "all (samples, blocks, block size, beads, temperature, job id) combinations, simple and plus/minus runs, and sequences of runs into one results directory",
     "Tests run no complete block loop with more than one block and never reload what a run saved.",
     [PIMC, FN],
     [("block loop", PIMC + ":block_compute, block_compute_pm"), ("saving and loading", PIMC + ":BoxResult.save_results, load_results, BoxResultPM"), ("naming", FN + ":pimc")],
     [("result arrays", "initialised to NaN, filled block by block", PIMC + ":BoxResult.initialize_arrays")],
     ["result object, file listing and contents of the results directory"])

prop("C04", "Combining result files conserves samples and keeps rows aligned",
     "Loading several result files yields exactly the union of their samples - each sample of each usable file once, numerator, denominator and shifted numerators of one sample at the same index - and when a maximum is requested, exactly min(maximum, available) valid samples, wherever the limit falls inside or between files. "
     "The outcome does not depend on file order, on process hash seeds or on duplicates in the list beyond the order of samples; files lacking required quantities contribute nothing, and zero denominators or no usable file are refused with an error rather than returned.",
     ["inputs", "histories", "configurations"],
     "all lists of result files (sizes, orders, duplicated paths, incomplete files) and all limits",
     "The existing tests do not load any multi-file set; a limit inside the second file is never exercised.",
     [PIMC, PP],
     [("aggregation", PIMC + ":BoxResult.load_multiple_results, BoxResultPM.load_multiple_results"), ("selection of files", PP + ":load_pimc_data, retrive_pimc_file_list")],
     None, ["arrays of the result object after loading"])

prop("C05", "Model files round-trip exactly and missing parameters mean zero",
     "Saving any valid model (coupled or diagonal) and loading it gives back the same dimensions and bit-identical parameter values, where a parameter missing from the file means all zeros in every loading path, including loads that overwrite caller-supplied arrays that held other values. "
     "Saving never modifies the caller's model, models whose arrays do not match their declared numbers of states and modes are refused on saving and on loading, and a load into supplied arrays either fills them completely with the file's values or raises.",
     ["inputs", "histories"],
     "all coupled and diagonal models (A,N, any subset of all-zero parameters, extreme magnitudes), all pre-states of the destination arrays, all mismatched shapes",
     "Tests sample a handful of random models; they do not cover combinations of absent keys with stale destination arrays, or mismatched dimensions that broadcast silently.",
     [VIO, "pibronic/vibronic/vibronic_model_keys.py", PIMC],
     [("save", VIO + ":save_model_to_JSON, save_diagonal_model_to_JSON, _save_to_JSON"), ("load", VIO + ":load_model_from_JSON, load_diagonal_model_from_JSON"), ("validation", VIO + ":verify_model_parameters, verify_diagonal_model_parameters"), ("use by the sampler", PIMC + ":ModelClass.load_model, ModelSampling.load_model")],
     None, ["file contents, returned dictionaries, destination arrays"])

prop("C06", "Results are only combined and reported for the models that produced them",
     "Every result and thermodynamics file carries fingerprints of the vibronic and the sampling model that produced it; a fingerprint is a function of the model file's content that changes whenever the content changes. "
     "After any history of model edits, re-runs and analyses, no analysis output that carries the current fingerprints contains samples produced with a different vibronic or sampling model, and selecting results by fingerprint keeps exactly the files whose both fingerprints match. "
     "Analytic reference data with other fingerprints are refused.",
     ["histories", "inputs"],
     "all histories of {edit vibronic model, edit sampling model, switch sampling model, sample, analyse} over one data set",
     "Needs multi-step histories over the file system; tests call the fingerprint helpers once on fixed strings.",
     [PP, FSF, VIO, ST, PIMC],
     [("fingerprints", VIO + ":create_model_hash, create_diagonal_model_hash; " + FSF + ":generate_model_hashes"), ("selection", PP + ":prune_results_using_hashes, load_pimc_data, load_analytic_data"), ("stamping", PIMC + ":save_results; " + ST + ":starmap_wrapper")],
     None, ["result and thermo files on disk"])

prop("C07", "Thermodynamic estimates follow the finite-difference definitions",
     "For every set of samples, the reported partition-function ratio and its error, internal energy and heat capacity equal the documented estimators: sample mean and standard error of numerator/denominator, -(1/Z)dZ/dbeta and the normalised second derivative minus E^2 over kB T^2, with symmetric finite differences at the common beta step, plus the sampling model's analytic contributions; in the difference (alpha) method the shifted means are first rescaled by the analytic partition-function ratios. "
     "Estimates are invariant under reordering of samples and under a common rescaling of numerators and denominators of individual samples. "
     "One output per (beads, temperature) combination for which samples exist is written, at the place determined by beads, temperature and sample count.",
     ["inputs", "configurations"],
     "all sample sets, temperatures, sample counts, analytic inputs, methods, and grids of (beads, temperature) present on disk",
     "Tests compare a few synthetic arrays generated by the same formulas; end-to-end analysis over files, and non-rectangular grids, are not run.",
     [ST, PP, "pibronic/constants.py"],
     [("estimators", ST + ":calculate_basic_property_terms, calculate_alpha_terms, estimate_basic_properties, add_harmonic_contribution"), ("drivers", ST + ":statistical_analysis_of_pimc, starmap_wrapper"), ("analytic inputs", PP + ":load_analytic_data")],
     None, ["dictionaries returned by the analyses, thermo files"])

prop("C08", "Jackknife estimates equal explicit leave-one-out resampling",
     "For every sample set of two or more samples and both methods, the jackknife energy, heat capacity and their errors equal what one gets by explicitly deleting each sample in turn, recomputing the estimate from the remaining ones, and combining: N times the full estimate minus (N-1) times the mean of the leave-one-out estimates, with error the square root of (N-1) times their sample standard deviation. "
     "The plain estimates reported next to them are those of the plain analysis of the same data, and the analytic contribution is added once to both values and to no error.",
     ["inputs"],
     "all sample sets (N>=2), temperatures, methods",
     "The tests check the vectorised terms against the same vectorised expressions, not against deletion.",
     [JK, ST],
     [("leave-one-out sums", JK + ":calculate_jackknife_terms, calculate_alpha_jackknife_terms"), ("combination", JK + ":estimate_jackknife"), ("drivers", ST + ":basic_jackknife_analysis, alpha_jackknife_analysis, jackknife_analysis_of_pimc")],
     None, ["returned dictionaries, thermo files"])

prop("C09", "Artificial models are exact rotations of the original, tuned from identity",
     "For every supported order and tuning value in [0,1] the generated matrix is orthonormal, deterministic, the identity at 0, and its distance from identity does not decrease as the tuning value grows and never exceeds that fraction of the largest tuned distance; values outside [0,1] are refused. "
     "Creating an artificial coupled model applies U M U^T to every parameter of the model and nothing else (frequencies and dimensions untouched), so that all spectra are preserved and rotating back recovers the original; the original file is kept unchanged as backup and the matrix actually used is stored, so a later re-use applies the very same matrix. "
     "A non-orthonormal matrix is refused and leaves the model files as they were.",
     ["inputs", "histories"],
     "all orders with stored sequences, all tuning values, all symmetric models with any subset of parameters, all orthonormal or non-orthonormal user matrices, repeated transformations",
     "The corresponding tests currently fail or use one or two matrices; monotonicity over the tuning range and the state of files after a refusal are not tested.",
     [VIO, CRE, SEQ],
     [("matrix generation", CRE + ":create_orthonormal_matrix_lambda_close_to_identity; " + SEQ + ":select_pair, load_sequence"), ("transformation", VIO + ":create_fake_coupled_model")],
     None, ["returned matrices; coupled, original and matrix files"])

prop("C10", "Diagonal models derived from a coupled model are exactly its diagonal",
     "The harmonic and basic sampling models derived from any coupled model contain exactly the state-diagonal entries of each of its parameters, the same frequencies, states and modes, and nothing else; the source model is left untouched and an existing sampling model is fully replaced. "
     "Zeroing the couplings of a model changes only off-diagonal state entries. "
     "Recalculated energies of a diagonal model make each of its oscillators' minima equal to the lowest adiabatic energy of the coupled model at that minimum, leaving all other parameters unchanged.",
     ["inputs"],
     "all coupled models (any subset of parameters) and all diagonal models with the same modes and any number of states",
     "Tests compare a few stored reference files.",
     [VIO],
     [("derivation", VIO + ":remove_coupling_from_model, create_harmonic_model, create_basic_diagonal_model, fill_offdiagonal_of_model_with_zeros"), ("energies", VIO + ":simple_single_point_energy_calculation, recalculate_energy_values_of_diagonal_model")],
     None, ["harmonic, sampling, iterative model files"])

prop("C11", "Imported .op models carry every coefficient with its value and index",
     "Reading a vibronic model from an operator (.op) file yields, for every coefficient written in the file, exactly that value (in the file's energy unit) at the position of its surface and mode indices and at its surface-symmetric partner (for quadratic terms also with the two modes exchanged), and zero at every position the file does not mention; this holds for energies, frequencies, linear, quadratic, cubic and quartic terms on all surfaces including the first and the last. "
     "The resulting model passes the model validation, is symmetric in surfaces, and the input file is not modified.",
     ["inputs"],
     "all well-formed .op files: numbers of surfaces and modes, any subset of coefficients, any values and spacing that the writer produces",
     "There are only a few fixed .op files and the tests compare dimensions, not each coefficient.",
     [OP, VIO],
     [("parser", OP + ":read_model_op_file and its helpers"), ("import", VIO + ":create_coupling_from_op_file")],
     None, ["returned model dictionary"])

prop("C12", "File names and directories are injective and parse back to their parameters",
     "For every root directory (whatever characters its path contains), data set, sampling set, beads, temperature, job, sample count and basis size, the paths given for results are distinct for distinct parameters (temperatures to two decimals), lie under the corresponding data-set/sampling-set directory, and the values extracted from such a path are the parameters that produced it. "
     "Listing and grouping functions return exactly the files, bead counts, temperatures and basis sizes present. "
     "Switching an existing directory object to another sampling set leaves it indistinguishable from one created for that set, including its fingerprints, and existence queries tell the truth about the directories on disk.",
     ["inputs", "histories"],
     "all parameter tuples and root paths; all sequences of switching between sampling sets and of directory creation/removal",
     "Tests use one temporary directory name and compare path strings for a single parameter set.",
     [FN, FSF, PP],
     [("templates", FN), ("directory object", FSF + ":FileStructure, change_rho, make_rho_directories, directories_exist"), ("parsers", PP + ":extract_*")],
     None, ["paths, directory listings, parsed values"])

prop("C13", "Submissions cover the requested grid and samples; jobs get their parameters",
     "Submitting a calculation enqueues, for every requested temperature and bead count, jobs whose sample counts together are at least the requested number and none of which exceeds the per-job maximum, each consisting of a whole number of blocks equal to its sample count; the parameters that a job decodes from its command are those of that temperature, bead count, model and directory, and no job repeats the samples of another. "
     "Submissions are independent: parameters given to one submission never influence another. "
     "A run's parameters survive encoding to and decoding from the textual form passed to a job.",
     ["inputs", "histories", "configurations"],
     "all supported clusters, temperature/bead lists, sample totals, block sizes, and sequences of submissions in one process",
     "There are no tests of submission (it needs a batch system); here fake scheduler commands on a private PATH record the real commands.",
     [JB, PIMC, "pibronic/server/server.py"],
     [("job splitting", JB + ":PimcSubmissionClass.setup_blocks_and_jobs, submit_jobs"), ("commands", JB + ":prepare_job_*"), ("encoding", PIMC + ":BoxData.json_serialize, encode_self, load_json_string")],
     None, ["argv and exported environment recorded by the fake scheduler; decoded run parameters"])

prop("C14", "An interrupted electronic-structure workflow resumes at its last stage",
     "For every history of stages recorded in a workflow's status file - including interruption after any stage - a newly started workflow, however it is started (as an object, for one molecule, for one data set, from the command line) and unless it is told its stage, resumes in its own directory at the stage that follows the most recently recorded completed stage, a finished workflow stays finished, and an absent, empty or unrecognisable record starts from the first stage. "
     "Stages advance one at a time in their fixed order, every advance is recorded before the next stage runs, and no completed stage is run again or skipped. "
     "Workflow objects for different molecules do not influence one another.",
     ["crash_points", "histories"],
     "all stage histories and interruption points of the workflow, several workflows in one process",
     "Crash points of a long external-program workflow cannot be enumerated by unit tests; today only the enumeration of stages is tested.",
     [ES],
     [("entry points", ES + ":test_one, calculate_vibronic_model_wrapper_one, main"), ("stage recording and restoring", ES + ":VibronExecutionClass.record_state, _set_state_from_file, advance"), ("driver", ES + ":VibronExecutionClass.calculate_vibronic_model")],
     [("state", "current stage", ES + ":VibronExecutionClass.state")],
     ["status file, order of external programs requested"])

prop("C15", "Electronic-structure outputs are parsed to the values they contain",
     "For every well-formed program output, the extracted geometry block, orbital/ionisation counts and ionisation-state selection are exactly those the output contains, independent of surrounding text, numbers of atoms or states; the number of states kept is the number of leading states dominated by single excitations. "
     "Completion checks accept exactly the outputs that ended successfully, parameters written into an input file replace only their placeholders or lines, and any missing marker raises an error instead of yielding a partial value.",
     ["inputs"],
     "all generated program outputs (sizes, ordering, surrounding text, truncation points) and input templates",
     "Tests contain a single sample output per program; truncated or differently sized outputs are not covered.",
     [ES, "pibronic/helper.py"],
     [("parsers", ES + ":parse_opt_output, _guess_NIP_value, parse_ip_output, verify_ip_states, verify_aces2_completed, parse_vibron_output"), ("writers", ES + ":ZmatClass, _add_nip_to_file, _remove_extra_heff"), ("text helpers", "pibronic/helper.py")],
     None, ["returned values, rewritten files"])

prop("C16", "Reference-calculation caches merge, invalidate and survive failures correctly",
     "After any sequence of reference calculations (analytic, sum-over-states, Trotter) at various temperatures, models and outcomes, the cache file holds exactly the values of the successful calculations made for the current model fingerprints, keyed by temperature, the latest value winning, also when calculations for the same cache run at the same time; results for other fingerprints are discarded as soon as a calculation for the new model succeeds. "
     "A calculation that is killed, fails, prints nothing or garbage, or whose result cannot be written completely (write error, killed while writing) ends with an error and leaves the cache file byte-for-byte as it was. "
     "Each calculation is run on the model file and with the inverse temperature, basis size and bead count that were asked for; the iterative decomposition is run on the data set's coupled model, for its own output files, and raises when it fails.",
     ["histories", "fault_sequences"],
     "all sequences of {calculate at T, edit model, switch rho, killed, empty, malformed output, disk full}, all orders in which concurrent calculations end",
     "Needs fault sequences of an external program that is not available to the tests; a stand-in program on a private PATH provides them.",
     [JW],
     [("merge and invalidate", JW + ":base_func, exclusive_access, validate_old_rho_data, validate_old_model_data, convert_keys"), ("execution and parsing", JW + ":compute, parse_ouput, iterate_method, construct_command_dictionary")],
     None, ["cache file bytes, argv recorded by the stand-in"])

prop("C17", "Generated random models are valid and respect the requested ranges",
     "Every randomly generated coupled or diagonal model has the requested numbers of states and modes and consistent parameter shapes, frequencies spanning exactly the requested range in non-decreasing order, energies within the requested range, linear terms bounded by the requested scaling over the frequency, and is symmetric in states and modes; the diagonal variant has the same properties restricted to the diagonal. "
     "Generation does not modify the caller's parameters, and symmetry/equality predicates accept exactly the models that satisfy them.",
     ["inputs"],
     "all generator parameters and random seeds; all perturbations of a valid model",
     "Randomised generator: tests draw a few models.",
     [VIO],
     [("generators", VIO + ":generate_vibronic_model_data, create_random_model, create_random_diagonal_model"), ("predicates", VIO + ":model_parameters_are_symmetric_in_surfaces, model_parameters_are_symmetric_in_modes, _same_model, _same_diagonal_model")],
     None, ["returned model dictionaries"])

prop("C18", "Training data pairs every path with the weights of that same path",
     "Every training set written for machine learning pairs, row by row, the saved path coordinates with the vibronic weight of exactly these coordinates, and the sampling weights computed for a given set of paths are those of exactly these paths, whatever the displacement of the models, the numbers of states, and the block layout. "
     "All requested rows are present and finite and the caller's path array is not modified.",
     ["inputs", "configurations"],
     "all models (with displaced states), block layouts, and supplied paths",
     "No test runs the training-data functions.",
     [PIMC, FN],
     [("path generation", PIMC + ":BoxData.generate_random_R_values"), ("weights", PIMC + ":block_compute_gR, block_compute_gR_from_raw_samples, block_compute_rhoR_from_input_samples, save_gR_with_samples")],
     None, ["training data files, result arrays"])

PLT, GRD, PRE = "pibronic/plotting/plotting.py", "pibronic/plotting/grid_plots.py", "pibronic/plotting/prepare.py"
prop("C19", "Plots show exactly the current results at their parameters",
     "For every collection of thermodynamics files of one or several data sets, the data prepared for plotting hold, for each (beads, temperature, samples) combination, exactly the values of the file of that combination whose two fingerprints match the current models, and NaN where there is no such file; results with other fingerprints are never shown, and the listed beads, temperatures and sample counts are those of the current files in ascending order. "
     "Reference values (analytic, sum over states, Trotter) are those of the same data set, temperature and bead count, never those of another data set; plots against the original model show 100 (Z_MC Z_sampling - Z_original) / Z_original with the error scaled alike. The abscissa is beta/P, each drawn curve with its error bars belongs to one sample count (or data set), and the parameter maps show the arrays of the original and of the coupled model.",
     ["inputs", "configurations"],
     "all sets of result files (gaps, stale fingerprints, plain and jackknife results, several data and sampling sets), all reference files, models of any size; drawing for one temperature",
     "No test touches the plotting package.",
     [PLT, GRD, PRE, "pibronic/plotting/virtual.py", PP],
     [("selection by fingerprint and parameter lists", PLT + ":generate_file_lists, generate_parameter_lists"), ("loading of results", PLT + ":load_pimc_data, plot_Z_test.load_data"), ("references", PLT + ":load_analytical_original, load_analytical_sampling, load_sos, load_trotter_coupled"), ("percent errors", PLT + ":prepare_data"), ("drawing", PLT + ":plot_Z, plot_E, plot_Cv"), ("parameter maps", GRD + ":plotGrids")],
     [("arr", "the plotted values indexed by beads, temperature, samples", PLT + ":load_pimc_data")],
     ["arrays of the plot objects; artists of the figures when they are saved"])

prop("C20", "Waiting for a job ends when, and only when, it has completed",
     "Waiting for a submitted job returns normally only after the scheduler has reported that very job as completed, and it does return then, whenever the job's signal arrives (before the wait, while the scheduler is being asked, between the test for it and the wait, during the wait, while polling) and for any sequence of jobs waited for by the same process; no signal is lost and none ends the process. If the scheduler does not know the job, or the recorded state of the job is failed or anything but completed, an error is raised. "
     "The job id that is waited for is the one printed by the submission, a refused submission raises, and a job whose output file shows a segmentation fault or an exceeded memory limit (a memory error), or that it was killed, or that does not exist, raises an error naming the job, while other outputs are accepted.",
     ["schedules", "histories", "fault_sequences"],
     "all moments at which the job's signal arrives, all sequences of scheduler answers ending in completion or in an error, sequences of jobs, recorded states, job outputs",
     "The tests replace the synchronisation and the queries by stubs; signals are never sent.",
     [JB, ES],
     [("waiting for the signal and polling", JB + ":synchronize_with_job"), ("signal handler", JB + ":SIGUSR1_handle"), ("recorded state", ES + ":wait_on_results"), ("output of the scheduler", JB + ":check_slurm_output"), ("submission and job id", JB + ":submit_job, extract_id_job_from_output")],
     [("job_almost_done_flag, job_state_lock", "whether the signal has been received", JB)],
     ["return or exception of the waiting functions, queries sent to the scheduler, end of the process"])

prop("C21", "Tuning sequences are true, increasing distances; plot data never replaces them",
     "For every matrix order, the generated tuning sequence starts at the identity and lists strictly increasing parameters x with strictly increasing distances, each being the Frobenius norm ||exp(xS) - 1|| of the sign matrix S, ending within one sampling step below a quarter of the largest possible distance (or, for the first-turn-around variant, at half the first turning point); regenerating a stored sequence reproduces it. "
     "The accompanying intervals contain exactly the parameters at which no smaller parameter is further from the identity. "
     "Data generated for plots hold the true norms and turning points at their parameters and leave stored sequences, hence later matrices, unchanged; saving and loading is exact, and sequences that are too short, missing or of invalid order are refused without touching a stored one.",
     ["inputs", "histories"],
     "all matrix orders >= 2, all generating functions, all sequences saved",
     "The sequences were generated once by hand; no test runs a generator or reads a whole sequence.",
     [SEQ, CRE],
     [("generators", SEQ + ":generate_full_monotonic_sequence, generate_monotonic_sequence_to_first_turn_around, list_of_turning_points, generate_and_save_x_pairs"), ("data for plots", SEQ + ":generate_full_monotonic_sequence_for_plotting, generate_turning_point_sequence_for_plotting, generate_sequences_for_plotting"), ("storage", SEQ + ":save_sequence, load_sequence")],
     None, ["sequence, interval and plot files in (a scratch copy of) the package directory"])

prop("C22", "A study reports the thermodynamics of its own models from its own jobs' paths",
     "For every study (a model imported from an operator file, a model file, a shipped example or a rotated diagonal model; any number of sampling models; submissions, jobs that run in any order, edits of either model and analyses in any interleaving) each analysis (with a FileStructure made, or switched to the sampling model, after the last edit) writes exactly one thermo file per number of beads and temperature for which some job ran with the current contents of both model files. "
     "Its Z, E, Cv, error of Z and (jackknife) jk_E, jk_Cv with errors are, to rounding, the documented estimators over all (different) paths drawn by all those jobs and by no others, with weights evaluated from the models that the user put in at the temperature and number of beads submitted. "
     "For long runs they agree within statistical error with the exact partition function ratio, energy and heat capacity (alpha method) of the discretised model.",
     ["histories", "configurations", "inputs"],
     "all models, all sets of sampling models, all interleavings of submissions, job executions, edits and analyses",
     "Tests exercise single steps with stored inputs; an error of a unit, sign, index or stale state that is consistent within one step only shows when the report is compared with the model that went in.",
     [VIO, OP, PIMC, JB, PP, ST, JK, FSF],
     [("import and derivation of models", VIO + ":create_coupling_from_op_file, create_fake_coupled_model, create_basic_diagonal_model, recalculate_energy_values_of_diagonal_model"), ("submission and execution", JB + ":PimcSubmissionClass; pibronic/server/nlogn_feynman (the scripts the jobs name)"), ("analysis", ST + ":statistical_analysis_of_pimc, jackknife_analysis_of_pimc")],
     None, ["paths drawn by each job", "contents of both model files when a job runs", "thermo files"])

prop("C23", "The shipped study scripts set up and submit exactly the studies they describe",
     "Setting up a data set of a shipped study, however often and in whatever order, leaves the shipped model in it (artificial systems: rotated by the stored orthonormal matrix of that data set's tuning value, with the shipped model kept as the original) and as sampling models the diagonal of the coupled model, the diagonal of the original, the shipped alternatives and the result of the iterative method, unchanged or with its energies recalculated from the coupled model. "
     "Requests for reference values (sum over states, trotter, analytic) submit one job for every combination that is not yet stored for the current model and none for those that are; each job runs as submitted and its values end up in the cache file of its data set, basis size and number of beads under its temperature, although all of them run at the same time and some fail; what failed is submitted again at the next request. "
     "Each sampling model gets its jobs for the whole grid of bead counts and temperatures. The analysis writes thermo files for exactly those combinations that have samples. Setting up a study again changes no file contents; after an edit of a model nothing stored for the old one counts any more.",
     ["histories", "configurations", "schedules"],
     "all systems and data sets of both shipped studies, all grids of basis sizes, temperatures and bead counts, all orders of set-up, requests, failures, jobs, analysis and edits",
     "No test runs a script of either study, a job command that it builds, or two calculations at the same time; a mistake in any of them shows only when the files of the whole study are compared with what was asked for.",
     ["examples/artificial_systems", "examples/paper_1.5025058", "pibronic/julia_wrapper.py", VIO, JB, FSF, ST],
     [("set-up", "examples/*/setup_models.py; " + VIO + ":create_fake_coupled_model, remove_coupling_from_model, recalculate_energy_values_of_diagonal_model"), ("submission", "examples/*/submit_jobs_to_server.py; " + JB), ("reference values", "pibronic/julia_wrapper.py")],
     None, ["argument vectors of the calculations", "jobs submitted", "cache, model and thermo files of the study"])

prop("C24", "Work done at the same time leaves the same files as work done in turn",
     "When any number of processes set up data sets and sampling sets, make or switch to their directories (also the same new ones), derive models, run sampling jobs (also of the same sampling set and the same parameters, with different job numbers) and analyse different sampling sets in one root at the same time, none of them fails, and afterwards the root holds exactly the directories, models, sample files and thermo files that the same actions leave behind when they are done one after another. "
     "An analysis during which further whole result files arrive in its results directory still succeeds and writes one thermo file for each number of beads and temperature that had results when it began: its number of samples and every value are those of one set of whole files, which contains all that were there before the analysis began; an analysis after the last arrival covers them all.",
     ["schedules", "histories"],
     "all interleavings of the file system calls of the processes, all data, sampling and job numbers, all moments at which result files arrive",
     "Every test runs alone in its own directory; a check for existence followed by a creation, a shared temporary name or a directory that is listed twice only fails in some interleavings.",
     [FSF, PIMC, ST, PP, VIO],
     [("directories", FSF + ":make_directories, make_rho_directories, change_rho"), ("sample files", PIMC + ":BoxResultPM.save_results, compute_path_to_file, load_multiple_results"), ("analysis", ST + ":starmap_wrapper; " + PP + ":retrive_pimc_file_list_of, load_pimc_data"), ("models", VIO + ":save_model_to_JSON, create_fake_coupled_model, recalculate_energy_values_of_diagonal_model")],
     None, ["file system calls of every process", "all files of the root", "moments of arrival"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
