"""Writes /verif/properties.jsonl (kept as a script so that the lines stay schema-valid and easy to edit)."""
import json, pathlib

D = "src/tenkit/decomposition/"
CP, PF, CM, BD, DC, LG = (D + f for f in ("cp.py", "parafac2.py", "cmtf.py", "base_decomposer.py", "decompositions.py", "logging/logger.py"))
BASE, METR, UT, LOG = ("src/tenkit/" + f for f in ("base.py", "metrics.py", "utils.py", "log.py"))

P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "A CP fit never makes the regularised loss worse",
  "For any real data tensor with two or more modes, any rank and any per-mode mix of unconstrained, non-negative, orthonormal and ridge-penalised modes, the regularised loss of a CP fit after an iteration is at most its loss after the previous iteration, up to rounding. From a starting point that already satisfies the constraints this includes the first iteration.",
  ["inputs", "configurations", "histories"],
  "All data tensors (orders 2 to 5, any scale, memory layout and dtype), ranks, starting points, constraint and penalty mixes, and all iteration counts, including continued fits.",
  "The tests follow the loss on one 30x40x50 rank-4 noise-free tensor with a tolerance of 1e-4; the non-negative variant fails for most random seeds and says nothing about noise, other orders, mixes of constraints or large penalties.",
  [CP, BASE], [("alternating least squares sweep", CP + ":_update_als_factors"), ("per-mode constrained solve", CP + ":_get_rightsolve"), ("regularised loss", CP + ":loss")],
  [("factor_matrices", "the current model", CP)], ["logger callback after each iteration", "decomposition returned by the fit"])

p("C02", "Each CP iteration solves every mode's subproblem exactly, in mode order",
  "One iteration of a CP fit replaces the factor matrices one mode after the other, from the first to the last, each by the minimiser of the regularised loss over that mode's constraint set (unconstrained, non-negative or orthonormal columns, with that mode's ridge penalty) given the latest values of all other modes. In particular, after every iteration no admissible change of the last mode's factor matrix alone lowers the loss.",
  ["inputs", "configurations"],
  "All data tensors, ranks, starting points and constraint mixes for which the subproblems have unique, well-conditioned solutions; every iteration of a fit.",
  "Tests only look at the final fit of noise-free data, where an inexact or wrongly weighted subproblem still converges to the same answer.",
  [CP, BASE], [("normal equations", CP + ":_get_als_lhs,_get_als_rhs"), ("solvers", BASE + ":rightsolve,non_negative_rightsolve,orthogonal_rightsolve,add_rightsolve_ridge"), ("MTTKRP", BASE + ":matrix_khatri_rao_product")],
  [], ["deep copies of the model taken in the logger callback"])

p("C03", "Constrained factor matrices satisfy their constraints after every iteration",
  "After every iteration, and in the decomposition a fit returns, each mode declared non-negative has no negative entry and each mode declared orthonormal has orthonormal columns. This holds for CP fits, for the first mode, third mode and blueprint of PARAFAC2 fits (where all unconstrained and constrained modes really are the ones being fitted), and for the tensor modes of coupled matrix-tensor fits, where the uncoupled factor of a matrix coupled to a non-negative mode is non-negative too.",
  ["inputs", "configurations", "histories"],
  "All data, ranks, starting points, constraint mixes and iteration counts, including fits that stop early, are continued or are resumed.",
  "Tests never look at the constraints: the non-negative and orthonormal tests only compare the reconstruction with noise-free data.",
  [CP, PF, CM, BASE], [("solver choice per mode", CP + ":_get_rightsolve"), ("inner CP fit shares arrays with the PARAFAC2 model", PF + ":_prepare_cp_decomposer")],
  [], ["logger callback after each iteration", "returned decomposition"])

p("C04", "Reported SSE, MSE, RMSE, explained variance and loss match data and model",
  "Whenever a fitted model is read (after any iteration, after a fit, a continued fit, a refit on other data, or after loading a checkpoint into it), its sum of squared errors equals the squared distance between the data and the reconstruction from its current decomposition, and is never negative; the mean squared error divides that by the number of fitted data entries, the root mean squared error is its square root, explained variance (of CP and PARAFAC2 models) is one minus its share of the squared norm of the data, and the loss adds each ridge penalty times the squared norm of its factor matrix. This holds for CP and PARAFAC2 models, and for coupled matrix-tensor models (without ridge) with the coupled matrices counted in errors and entries.",
  ["inputs", "configurations", "histories"],
  "All data, models and sequences of fit, continue, refit and load operations; metrics are read in any order at any iteration.",
  "No test compares a reported metric with an independent recomputation; the errors come from cached intermediate products whose staleness depends on the history of calls.",
  [BD, CP, PF, CM, DC], [("cached error formula", CP + ":SSE,_inner_prod_X_reconstructed_X"), ("element count", DC + ":num_elements"), ("coupled errors", CM + ":SSE,MSE")],
  [("cached MTTKRP and its mode", "reused to compute the error without the residual", CP)], ["public metric properties", "standard loggers"])

p("C05", "PARAFAC2 models keep their structure: orthonormal projections, constant Phi",
  "After every iteration of a PARAFAC2 fit on regular or irregular slices, from every initialisation scheme, the k-th evolving factor equals its own projection matrix times the one shared blueprint, each projection has orthonormal columns, and so the cross-product of the evolving factor is the same for all slices. The projections of different slices are independent of each other: they are distinct arrays that each follow their own slice.",
  ["inputs", "configurations", "histories"],
  "All slices at least as wide as the rank (equal or not, also of deficient rank or zero), initialisations (random, SVD, CP, precomputed, checkpoint), constraints and iteration counts.",
  "Tests check the constant cross-product of one hand-built tensor, never of a fitted one, and the CP-initialised test accepts almost any reconstruction (atol=1).",
  [PF, DC, BASE], [("projection update", PF + ":_update_projection_matrices"), ("projected factor container", DC + ":ProjectedFactor"), ("initialisers", PF + ":init_random,init_svd,init_cp")],
  [("projection_matrices", "one orthonormal matrix per slice, updated in place", DC)], ["logger callback after each iteration", "returned decomposition"])

p("C06", "A PARAFAC2 fit never makes the loss worse and solves its steps exactly",
  "For any list of slices with a common number of rows and any per-mode mix of non-negative, orthonormal and ridge-penalised first mode, blueprint and third mode, the loss of a PARAFAC2 fit after an iteration is at most the loss after the previous one, up to rounding (from the first iteration on, if the start satisfies the constraints). Each iteration first replaces every slice's projection by the orthonormal matrix that fits that slice best given the rest of the model, then performs the configured number of CP sweeps on the projected data.",
  ["inputs", "configurations", "histories"],
  "All regular and irregular data sets with full-rank slices, ranks, starts, constraint mixes and numbers of inner sweeps, over all iterations.",
  "One noise-free 30x40x50 tensor, unconstrained, tolerance 1e-4; irregular slices are never fitted by any test.",
  [PF, CP, BASE], [("projection update", PF + ":_update_projection_matrices"), ("inner CP sweeps", PF + ":_update_parafac2_factors"), ("orthogonal Procrustes", BASE + ":orthogonal_solve")],
  [], ["logger callback after each iteration"])

p("C07", "Coupled fits descend jointly and keep the coupled factor shared",
  "For any tensor and any matrices coupled to its modes, also several to one mode, an iteration of a coupled matrix-tensor fit (without ridge) never increases the summed squared error over the tensor and all matrices, whether the fit is fresh, started from a given decomposition, or continued: it replaces the tensor's factor matrices mode by mode, each by the minimiser of the joint error over its constraint set given the rest, and then every uncoupled factor by its minimiser. The returned factor pair of each matrix consists of the tensor's own factor matrix for that mode and the fitted uncoupled factor, which is optimal for it; the final rescaling to unit-norm components changes neither the reconstructed tensor nor the reconstructed matrices.",
  ["inputs", "configurations", "histories"],
  "All tensors, numbers and modes of coupled matrices, starts, non-negativity and orthonormality mixes, and iteration counts.",
  "The only coupled test couples one matrix to the first mode, and fails on every seed.",
  [CM, CP], [("stacked least squares for coupled modes", CM + ":_get_als_lhs,_get_als_rhs"), ("uncoupled update", CM + ":_update_uncoupled_matrix_factors"), ("final rescaling", CM + ":_normalize_components")],
  [], ["logger callback after each iteration", "value returned by fit_transform"])

p("C08", "Fits stop exactly when the documented criteria say so",
  "A CP or PARAFAC2 fit runs iterations numbered consecutively, never more than the iteration limit in force (the one given to the fit call, otherwise the model's), and ends before the limit exactly when the relative change of the monitored error (squared error for CP, loss for PARAFAC2) between two consecutive iterations is below the convergence tolerance in absolute value or, for CP, the relative squared error is below its own tolerance. Each iteration is reported once to every logger, and continuing a fit carries on from the last iteration with the same rules; a limit that is already reached means no further iteration, not an error.",
  ["inputs", "configurations", "histories"],
  "All data, tolerances (also negative, to disable), limits including zero, and sequences of fit, refit and continue calls.",
  "Tests always run to a fixed count or do not look at why the fit stopped; the off-by-one cases depend on the convergence history.",
  [CP, PF, BD], [("main loop", CP + ":_fit; " + PF + ":_fit"), ("convergence update", CP + ":_update_convergence; " + PF + ":_update_convergence"), ("iteration counter", BD + ":_after_fit_iteration")],
  [("current_iteration", "number of completed iterations", BD)], ["logger callback after each iteration", "iteration counter after the call"])

p("C09", "An interrupted fit resumed from its checkpoint equals an uninterrupted one",
  "If a CP or PARAFAC2 fit stops at any point before it has converged (its process is killed, a callback raises, or its limit is reached) and a new model is started from any checkpoint it left behind, the resumed fit performs exactly the iterations after that checkpoint and ends with the same decomposition and the same total iteration count as a fit that was never interrupted. The same holds for a fit split into a first fit and continued fits, and for a resumed fit that keeps writing to the same checkpoint file, whose logs then hold every iteration once, and for a model used before that loads a checkpoint and is continued.",
  ["inputs", "configurations", "histories", "crash_points"],
  "All data, constraint mixes, checkpoint frequencies, interruption points and splits of the iteration budget, with the tolerances disabled.",
  "Tests load one final checkpoint and compare the factors, and never run a resumed fit.",
  [BD, CP, PF, DC, LG], [("checkpoint naming and iteration counter", BD + ":store_checkpoint,load_checkpoint"), ("state rebuilt from the decomposition alone", PF + ":_prepare_cp_decomposer"), ("log continuation", LG + ":write_to_hdf5_group")],
  [("current_iteration", "number of completed iterations, restored from the file", BD)], ["checkpoint file", "decomposition of the resumed model"])

p("C10", "Checkpoint files hold exactly the due checkpoints and each log entry once",
  "With a checkpoint path set, the file written by a CP or PARAFAC2 fit holds a checkpoint named after iteration k exactly for those completed iterations whose 1-based number is a multiple of the checkpoint frequency, plus the last iteration of the fit; each holds bit-exactly the decomposition as it was after that iteration, the file's list of checkpoints and its latest iteration agree with the groups present, and loading with or without an explicit iteration returns that very decomposition. Every attached logger's record in the file, also of several loggers of one class, equals its in-memory record: one entry per completed iteration, in order, without loss or repetition. Without a path nothing is written.",
  ["inputs", "configurations", "histories"],
  "All checkpoint frequencies (including none), iteration counts, early stops, sets of loggers, and sequences of fit and continue calls on one file.",
  "Tests check that four group names exist for one frequency that divides the iteration limit.",
  [BD, CP, PF, LG, UT], [("when checkpoints are due", BD + ":_after_fit_iteration; " + CP + ":_fit; " + PF + ":_fit"), ("incremental log writes", LG + ":write_to_hdf5_group,latest_log_metrics"), ("checkpoint iteration", UT + ":iter_checkpoints")],
  [("prev_checkpoint_it", "number of log entries already on disk", LG), ("final_iteration", "latest complete checkpoint", BD)], ["HDF5 file", "in-memory logs"])

p("C11", "A failed checkpoint write never costs earlier checkpoints",
  "If writing a checkpoint's decomposition fails at any point (an error is raised from any of the storage operations, or a checkpoint of that iteration already exists), all earlier checkpoints stay intact and loadable, the file's latest checkpoint is still the last complete one, no partial checkpoint remains listed or iterable, and a fit resumed from the file can write that checkpoint again. The same holds if the process is killed between checkpoint writes.",
  ["fault_sequences", "crash_points", "histories"],
  "Every storage operation of every checkpoint write as fault point, for CP and PARAFAC2 models, all frequencies; process kills at any iteration outside a write.",
  "No test injects a fault or reads a file left by a failed run.",
  [BD, DC], [("write order and clean-up", BD + ":store_checkpoint"), ("payload", DC + ":store_in_hdf5_group")],
  [("final_iteration", "latest complete checkpoint", BD)], ["HDF5 file after the fault"])

p("C12", "Stored decompositions load back exactly, and only as their own type",
  "Storing a Kruskal, evolving or PARAFAC2 decomposition to a file or HDF5 group and loading it back gives a decomposition of the same type whose factor matrices, weights, blueprint and projections are bit-identical and in the same order, for any order, rank, number of slices and slice sizes, and it reconstructs the same data. Loading a file as a different type is refused, and storing never changes the decomposition.",
  ["inputs", "histories"],
  "All container contents, including irregular slices, more than ten or a thousand slices, non-unit or negative weights, special values, non-contiguous arrays, and repeated store/load cycles.",
  "The round-trip tests compare only some parts (several comparisons lack an assert), and the evolving ones fail at this commit.",
  [DC], [("store", DC + ":store_in_hdf5_group"), ("load", DC + ":load_from_hdf5_group"), ("type guard", DC + ":_check_hdf5_group")],
  [], ["loaded object", "HDF5 file"])

p("C13", "Containers reconstruct exactly the data their factors define",
  "A Kruskal tensor with any number of modes from two up reconstructs the weighted sum of outer products of its columns; an evolving or PARAFAC2 tensor's k-th slice is A diag(c_k) B_k^T, its tensor stacks the slices along the third mode with zeros beyond a narrower slice, and shapes agree with the factors. The other views of an evolving or PARAFAC2 tensor (unfolded evolving factor, single evolving factors and parts of them, number of elements, whether slices are of equal size, diagonal slices of C) agree with its factors as well. Converting a Kruskal tensor to an evolving tensor, or splitting a decomposition into its single components and adding them up, gives the same data; constructing an irregular tensor warns by raising unless warnings are off.",
  ["inputs", "configurations"],
  "All factor values (including weights of any sign), shapes, ranks, regular and irregular slices given as lists or arrays.",
  "Tests construct one 30x40x50 tensor with unit weights per class.",
  [DC, BASE], [("construction", DC + ":construct_tensor,construct_slice,construct_slices"), ("conversion", DC + ":from_kruskaltensor,get_single_component_decomposition"), ("Khatri-Rao and folding", BASE + ":khatri_rao,fold")],
  [], ["returned arrays"])

p("C14", "Normalising, sign fixing and permuting never change what a model describes",
  "Normalising a Kruskal tensor with weight update gives unit-norm columns, the same tensor, and weights that absorb the norms, and doing it again changes nothing. The signs a Kruskal tensor reports for data are all plus or minus one with product one per component, flip at most one mode against its sign score (the one whose score is weakest), and applying them leaves the tensor unchanged; the helpers that normalise, sign-flip or permute lists of factor matrices return unit columns, non-negative majority signs, or the permuted columns together with what is needed to undo it, and leave their input unchanged.",
  ["inputs"],
  "All factor matrices without zero columns, orders, ranks, weights (any real dtype) and data tensors with non-zero sign scores.",
  "Tests use one 3-mode tensor with unit weights.",
  [DC, UT], [("normalisation", DC + ":normalize_components; " + UT + ":normalize_factors"), ("sign rules", DC + ":get_signs; " + UT + ":get_signs,flip_factors,prepare_for_comparison"), ("permutation", UT + ":permute_factors,permute_factors_and_weights")],
  [], ["returned arrays", "reconstructed tensor"])

p("C15", "Factor match scores find the best matching and ignore representation",
  "The factor match score of two decompositions of equal rank (or with more estimated components) lies between zero and one, is the maximum over all component matchings of the chosen reduction (minimum or mean) of the per-component product of absolute cosines, times the weight penalty if asked for, and comes with a permutation that attains it. It is one for a decomposition against itself and unaffected by permuting its components, flipping signs, or moving scale between modes or into the weights; without weight penalty it ignores scale altogether; the per-mode variant scores every mode by its own best matching, and the variant for lists of PARAFAC2 factors scores the first and third modes.",
  ["inputs", "configurations"],
  "All pairs of Kruskal, evolving (also irregular) and PARAFAC2 decompositions without zero columns, ranks, reductions and penalty settings.",
  "Tests use the score as a yardstick but never compare it with its definition; the container methods are not called by any test.",
  [METR, DC], [("score", METR + ":factor_match_score,_factor_match_score,weight_score,separate_mode_factor_match_score"), ("container methods", DC + ":factor_match_score,separate_mode_factor_match_score")],
  [], ["returned score and permutation"])

p("C16", "Tensor algebra primitives agree with their definitions for all shapes",
  "Unfolding along a mode and folding back restores the tensor; the unfolding of a sum of rank-one terms equals that mode's factor times the transposed Khatri-Rao product of the others; Kronecker and Khatri-Rao products equal their entrywise definitions with an optional mode skipped; the matricised tensor times Khatri-Rao product equals the unfolding times that product for every mode; flattening factor matrices and unflattening them are inverse. None of them changes its arguments.",
  ["inputs"],
  "All shapes (including dimensions of size one), orders two to five, ranks, modes, memory layouts and integer or floating dtypes.",
  "No test touches these functions directly; fits exercise them on one shape.",
  [BASE], [("unfold/fold", BASE + ":unfold,fold"), ("products", BASE + ":khatri_rao,kron,matrix_khatri_rao_product"), ("flattening", BASE + ":flatten_factors,unflatten_factors")],
  [], ["returned arrays"])

p("C17", "Least-squares solvers return optimal points of their constraint sets",
  "For every coefficient matrix, also rank-deficient or zero, solving X A = B returns a minimiser of the squared error (of least norm, in the unconstrained case); the non-negative solver returns a non-negative minimiser over non-negative X, also for a single right-hand-side vector; the orthogonal solvers always return orthonormal columns, maximising the fit; and the ridge variant of each minimises the error plus penalty times the squared norm of X. None of them changes its arguments.",
  ["inputs"],
  "All real coefficient and right-hand-side matrices whose numerical rank is clear, and all non-negative penalties.",
  "Tests use a handful of 2x3 systems of full rank.",
  [BASE], [("solvers", BASE + ":rightsolve,non_negative_rightsolve,orthogonal_solve,orthogonal_rightsolve,add_rightsolve_ridge")],
  [], ["returned arrays", "optimality conditions"])

p("C18", "Model diagnostics equal their definitions and ignore representation",
  "Core consistency is 100 for data that follow the model exactly, equals 100 times one minus the normalised distance between the least-squares Tucker core and the superdiagonal identity in general, and is unaffected by moving scale between modes or into the weights, permuting components or (for PARAFAC2) by whether slices are regular. Degeneracy is the symmetric matrix of products over modes of column cosines; leverages are the diagonal of the projector onto the factor's columns; explained percentage and completion score equal their residual-norm formulas.",
  ["inputs"],
  "All third-order data tensors and full-column-rank factors, ranks and scalings; any number of modes for degeneracy.",
  "The only test of core consistency fails before it calls the function; the other diagnostics have none.",
  [METR, DC, BASE], [("core consistency", METR + ":core_consistency,core_consistency_parafac2; " + DC + ":core_consistency"), ("other scores", METR + ":leverage,percent_explained,tensor_completion_score,_tucker_congruence; " + DC + ":degeneracy")],
  [], ["returned scores"])

p("C19", "Fits leave their inputs alone and do not depend on earlier use of the model",
  "Fitting CP, PARAFAC2 or coupled models never changes the data tensor, slices or coupled matrices, for any memory layout or dtype. Given the same data, settings and random state (or starting point), a model object that has been fitted before, on any other data, gives the same result as a fresh one; the random state is the only source of variation; a decomposition returned by one fit is not changed by later fits from other starting points; settings given to one model or fit call do not leak into other models.",
  ["inputs", "configurations", "histories"],
  "All data, settings and sequences of fits with one or several model objects, interleaved in any order.",
  "Every test builds a new model for each fit (or refits without looking at the result of the first), and none compares its inputs before and after.",
  [CP, PF, CM, BD], [("per-fit initialisation", CP + ":_init_fit; " + PF + ":_init_fit; " + CM + ":_init_fit"), ("target", BD + ":set_target; " + PF + ":set_target")],
  [("cached MTTKRP", "must not survive into the next fit", CP)], ["inputs before and after", "results of fresh and used models"])

p("C20", "Experiment logs on disk hold every value once, in order, across restarts",
  "After n parameter sets have been logged, the experiment file holds, for every target, the first values in order up to the last multiple of the store frequency, and all n after an explicit save, each exactly once and equal to the target function's value in single precision. Reopening the file to continue appends after what is stored, several experiments in one file do not disturb each other, and a run experiment stores its attributes, parameters (except the starting point), outputs and final metrics under its own name, and metadata in the file's own group. If a write fails, what the log holds after it has been continued contains no value that was not logged.",
  ["inputs", "histories", "crash_points"],
  "All store frequencies, numbers of log calls, targets, interleavings of explicit saves, restarts (with loss of unsaved values only), failed writes and experiments per file.",
  "There is no test of this module.",
  [LOG], [("incremental writes", LOG + ":HDF5Logger.log,save_logs"), ("continuation", LOG + ":HDF5Logger.__init__"), ("experiment record", LOG + ":Experiment.run_experiment")],
  [("_prev_write_it", "number of values on disk", LOG)], ["HDF5 file"])

p("C21", "A decomposition that fits the data exactly is a fixed point of fitting",
  "If the data follow a CP or PARAFAC2 model exactly and a fit is started from that exact decomposition, in whatever scaling or with whatever weights it is represented, and the fit's constraints admit it, every further iteration leaves the reconstruction equal to the data up to rounding and the components equal up to scaling, and with default settings a CP fit recognises this and stops within two iterations.",
  ["inputs", "configurations", "histories"],
  "All exact models with well-conditioned factors, orders, ranks, regular and irregular slices, constraint mixes satisfied by the model, and iteration counts.",
  "Tests recover models from random starts up to loose tolerances, on one shape.",
  [CP, PF, BASE], [("starting points are used as given", CP + ":init_components,_init_fit; " + PF + ":init_components"), ("consistent steps", CP + ":_update_als_factor; " + PF + ":_update_parafac2_factors")],
  [], ["reconstruction and error after each iteration"])

p("C22", "Inconsistent models and starting points are refused before fitting",
  "Factor matrices with differing numbers of columns, or as many weights as there are not components, cannot form a Kruskal tensor; a starting decomposition whose rank, number of modes or slices, or mode lengths disagree with the model or data, an SVD start with a rank above the smallest dimension, an unknown initialisation, random-initialisation method or score reduction, a checkpoint file or iteration that does not exist, and a mode that is both non-negative and orthonormal are all refused with an error, and in no case does the fit run an iteration or return a decomposition; a fitted model that refuses to load a checkpoint keeps its decomposition and iteration count. Every consistent combination is accepted.",
  ["inputs", "configurations"],
  "All single-aspect mismatches between starting point, model and data at any mode or slice, for CP and PARAFAC2.",
  "Tests cover three column mismatches of the Kruskal constructor.",
  [CP, PF, BD, DC, METR], [("component check", CP + ":_check_valid_components; " + PF + ":_check_valid_components"), ("constructor check", DC + ":KruskalTensor.__init__"), ("checkpoint check", BD + ":load_checkpoint")],
  [], ["raised errors", "logger callbacks"])

p("C23", "Every documented initialisation yields a valid start for the data at hand",
  "Random, SVD, CP, precomputed and checkpoint starts (the latter given as a file path either way, scheme names in any letter case) give a decomposition of the right type, rank and shape for the data: random CP factors have unit-norm columns and are non-negative in non-negative modes, SVD factors are the leading left singular vectors of each unfolding, precomputed and checkpoint starts reproduce the given tensor (for CP also when it carries weights), and PARAFAC2 starts have orthonormal projections for regular and, except for the CP scheme, irregular slices; the SVD start of PARAFAC2 has the leading left singular vectors of the slices side by side as its first mode, up to scale. A limit of zero iterations returns this start.",
  ["inputs", "configurations"],
  "All data shapes, ranks, initialisation schemes, constraint settings and random states.",
  "Tests use random starts almost only; the SVD scheme is never run.",
  [CP, PF, DC, BD, UT], [("initialisers", CP + ":init_random,init_svd,init_components; " + PF + ":init_random,init_svd,init_cp,init_components"), ("random containers", DC + ":random_init")],
  [], ["decomposition after a fit of zero iterations"])

p("C24", "Synthetic data carry exactly the requested structure and noise",
  "The data generators return unit-norm factor matrices of the requested sizes and rank together with a tensor that equals the reconstruction from those factors plus the noise factor times the returned noise, whose norm equals that of the noise-free tensor; the non-negative generator's factors have no negative entries. Random Kruskal tensors have unit columns and weights, and random PARAFAC2 tensors have orthonormal projections, for equal or differing slice widths. The same random state gives the same data.",
  ["inputs", "configurations"],
  "All sizes, orders, ranks, noise factors and random states.",
  "No test calls the generators with noise, and the data generators fail at this commit.",
  [UT, DC, BASE], [("generators", UT + ":create_data,create_non_negative_data,create_random_factors"), ("random containers", DC + ":random_init")],
  [], ["returned arrays"])

p("C25", "Progress reports come when they are due, tell the truth and change nothing",
  "A fit given a positive print frequency f writes exactly one line to standard output for each iteration whose zero-based number is divisible by f, and nothing else; the line gives the number of the iteration and, as they are after that iteration and to six significant digits, the model's mean squared error, its regularised loss, and the relative decrease of the monitored error (the sum of squared errors for CP and CMTF, the loss for PARAFAC2) since the previous iteration. Given None or a negative frequency it writes nothing. Reporting does not change the fit. This holds for fresh, continued, interrupted and resumed fits alike, and the CP start of a PARAFAC2 fit is silent.",
  ["configurations", "histories"],
  "All models, constraint settings, print frequencies and histories of fits.",
  "No test looks at the output.",
  [CP, PF, CM], [("CP report", CP + ":_fit"), ("PARAFAC2 report", PF + ":_fit"), ("CMTF report", CM + ":_fit")],
  [], ["standard output", "logger callbacks"])

p("C26", "Work done at the same time in other threads does not change a result",
  "Models that are fitted at the same time in different threads of a process, each with its own model, loggers, starting point and checkpoint file, end with the same trace, decomposition, log and checkpoints as when they are fitted alone, also when they share read-only data or have data of equal shape; metrics of one fitted model read by several threads, and the array and comparison functions called from several threads, give the same values as when called alone.",
  ["schedules", "inputs"],
  "All interleavings of fits, metric reads and function calls at the lines of the library.",
  "The tests use one thread.",
  [CP, PF, CM, BASE, METR, UT], [("fits", CP + ":_fit; " + PF + ":_fit; " + CM + ":_fit"), ("array functions", BASE + ":khatri_rao,unfold,matrix_khatri_rao_product"), ("metrics", METR + ":factor_match_score")],
  [], ["logger callbacks", "returned values", "checkpoint files"])

p("C27", "A fit does not depend on the order, units or signs in which its data are given",
  "When a fit from a given start is repeated with the data and the start rearranged alike, the iterates are rearranged in the same way and nothing else changes: the entries of a mode, the slices of PARAFAC2 data, the entries of the evolving mode of one slice, the components of the start, or the coupled matrices or their columns in another order; a mode without entrywise constraints, or the evolving mode of one slice, rotated; zero entries added to a mode; the signs of start components flipped in two modes; or, without ridge penalties, the data multiplied by a power of two. Up to rounding, every iteration of the two fits gives corresponding models and the same relative errors, and both stop after the same number of iterations.",
  ["inputs", "configurations"],
  "All data, ranks, constraint settings and transformations of these kinds.",
  "Tests fit each data set in one arrangement only.",
  [CP, PF, CM], [("CP updates", CP + ":_update_als_factor"), ("PARAFAC2 updates", PF + ":_update_projection_matrices,_update_parafac2_factors"), ("CMTF updates", CM + ":_update_uncoupled_matrix_factors")],
  [], ["logger callbacks"])

p("C28", "Degenerate data and starting points never break a fit",
  "For data that are zero in part or entirely, constant, repeated, of lower rank than the model, graded over many orders of magnitude or of modes of length one, and for starts with zero, repeated, collinear, tiny or huge components, a fit performs its iterations and after every one of them the model is finite and feasible and fits no worse than the zero model; without ridge penalties the error does not grow between iterations, and the reported error metrics are finite and non-negative. (Scales that run out of the range of double precision are outside of this.)",
  ["inputs", "configurations"],
  "All degenerate data and starting points, ranks and constraint settings.",
  "Tests use generic random data of the exact rank of the model.",
  [CP, PF, CM, BASE], [("CP updates", CP + ":_update_als_factor"), ("stopping rule", CP + ":_update_convergence,_fit"), ("PARAFAC2 updates", PF + ":_update_projection_matrices"), ("CMTF updates", CM + ":_update_uncoupled_matrix_factors"), ("solvers", BASE + ":rightsolve,normal_equations_rightsolve,orthogonal_solve")],
  [], ["logger callbacks", "metrics"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
try:
    import jsonschema
    schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, schema)
    print(len(P), "properties, schema ok")
except ImportError:
    print(len(P), "properties")
