#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is its output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

T = "tt_sketch/"
p("C01", "A streaming sketch depends only on the tensor's values, not on its format",
  "For every tensor stored as sparse, dense, tensor train, CP, Tucker or a (possibly nested) sum of these, and every pair of dimension reduction matrices (DRMs) that supports the format, every component of the streaming sketch equals, up to rounding, the contraction of the full dense tensor with the explicit matrices of those DRMs. In particular two representations of the same tensor give the same sketch with the same DRMs.",
  ["inputs", "configurations"],
  "all tensor values, shapes (order >= 2, dimensions >= 1), formats, memory layouts, DRM types and per-bond ranks",
  "tests sketch only random low-rank tensors of order 2-4 with dimensions 5-12 and look at the reconstruction error; no test compares sketch components across formats or with an explicit contraction, and dimension 1, order > 4, structured data and most format/DRM/rank combinations are never run",
  [T+"sketch_dispatch.py", T+"sketching_methods/dense_sketch.py", T+"sketching_methods/sparse_sketch.py", T+"sketching_methods/tensor_train_sketch.py", T+"sketching_methods/cp_sketch.py", T+"sketching_methods/tucker_sketch.py", T+"drm/tensor_train_drm.py", T+"drm/dense_gaussian_drm.py", T+"drm_base.py"],
  [("per-format Psi/Omega kernels selected by dispatch tables", T+"sketch_dispatch.py: OMEGA_METHODS, PSI_METHODS, general_sketch"), ("left/right handled by one kernel through a transposing decorator", T+"drm_base.py: handle_transpose")],
  [("Psi_cores / Omega_mats", "the sketch components", T+"sketch_container.py")],
  ["stream_sketch(...).Psi_cores", "stream_sketch(...).Omega_mats", "DRM.sketch_<format>"])
p("C02", "Any history of streaming updates equals one sketch of the accumulated tensor",
  "Starting from a streaming sketch, after any history of adding or subtracting tensors of any supported formats and multiplying or dividing the sketch by scalars, the sketch components equal those of sketching the accumulated tensor in one go with the same DRMs, independently of the order and grouping of the updates. Every intermediate sketch stays valid and unchanged, and converting the sketch to a tensor train or array gives what the one-shot sketch gives.",
  ["histories", "inputs"],
  "all operation histories (add, subtract, scale, divide, negate, convert) over all supported formats and DRM pairs",
  "one test performs a single update and checks only the final reconstruction error; scaling and negation of a sketch are not covered by a passing test and no test chains updates",
  [T+"sketch.py", T+"sketch_container.py", T+"sketch_dispatch.py", T+"tensor.py"],
  [("update = sketch of the update with the stored DRMs, added component-wise", T+"sketch.py: SketchedTensorTrain.__add__, SketchContainer.__add__/__mul__")],
  [("sketch_, left_drm, right_drm", "the running sketch and the DRMs it must be updated with", T+"sketch.py: SketchedTensorTrain")],
  ["SketchedTensorTrain.Psi_cores/Omega_mats/to_tt/to_numpy after each operation"])
p("C03", "Blocked sketches and rank increases equal the one-shot sketch of final rank",
  "For every DRM pair that supports slicing and every tensor format it can sketch, assembling the sketch from any partition of the left and right ranks into blocks gives the same components as the unblocked sketch. For DRMs that support it, any sequence of rank increases (also of one side or some bonds only) gives the sketch that the DRM of the final rank gives, and leaves the components for the earlier ranks unchanged.",
  ["configurations", "histories", "inputs"],
  "all per-bond rank partitions, all sequences of per-bond rank increases, all formats, DRM types and DRM options that support slicing",
  "tests use nine fixed uniform partitions on sparse, TT and CP tensors and one increase by a fixed amount; non-uniform, empty or one-sided blocks, dense/Tucker/sum tensors, DRM options and repeated increases are never run",
  [T+"sketch.py", T+"drm_base.py", T+"drm/tensor_train_drm.py", T+"drm/dense_gaussian_drm.py", T+"drm/sparse_gaussian_drm.py", T+"drm/sparse_sign_drm.py", T+"drm/fast_lazy_gaussian.pyx"],
  [("rank_min/rank_max slicing of every DRM and block-wise assembly", T+"sketch.py: blocked_stream_sketch, SketchedTensorTrain.increase_rank; "+T+"drm_base.py: CanSlice, CanIncreaseRank")],
  [("rank_min, rank_max, true_rank", "slice of the DRM, stored reversed for right DRMs", T+"drm_base.py: DRM")],
  ["blocked_stream_sketch(...)", "SketchedTensorTrain.increase_rank(...)", "DRM.slice/increase_rank"])
p("C04", "Sketching recovers tensors of low TT-rank to rounding accuracy",
  "If a tensor's TT-rank does not exceed the requested ranks (on both sides for the streaming and orthogonal sketches), every sketching method with every supported DRM returns that tensor up to rounding errors (provided the dimension reduction keeps the tensor's rank, as Gaussian matrices do almost surely), for every tensor format and also when the ranks are far larger than needed or than the tensor's dimensions allow. This holds at any scale of the entries and for the zero tensor.",
  ["inputs", "configurations"],
  "all shapes, formats, TT-ranks, requested ranks at or above them (equal, oversampled, larger than the dimensions; left larger or right larger), DRM pairs, methods and scales",
  "tests cover order 2-4 with dimensions >= 5, two ranks and one seed; dimensions of 1, rank-deficient, zero and scaled tensors and most rank combinations are not run",
  [T+"sketch.py", T+"sketch_dispatch.py", T+"utils.py", T+"drm/"],
  [("two-sided sketch with stable pseudo-inverse / QR step", T+"sketch.py: assemble_sketched_tt; "+T+"sketch_dispatch.py: orth_step; "+T+"utils.py: right_mul_pinv, left_mul_pinv")],
  (), ["stream_sketch(...).to_numpy()", "orthogonal_sketch(...)", "hmt_sketch(...)"])
p("C05", "Sketch results honour the shape, rank and orthogonality contract",
  "Every sketching method returns a tensor train of exactly the input's shape with consistent cores, boundary ranks 1 and bond ranks equal to the requested ranks of the smaller side reduced to what the shape allows, and an integer rank means the same as that rank on every bond. Results of the one-sided (HMT) and orthogonal sketches have orthonormal left cores; a streaming sketch reports its left and right ranks in bond order and can be assembled in both directions: towards the right with its left ranks, towards the left with its right ranks. A DRM passed in explicitly is used as given and handed back on request (the one-sided and orthogonal sketches take explicit DRMs of attainable ranks only); a single DRM type given is used for both sides.",
  ["inputs", "configurations"],
  "all shapes, integer/tuple/list ranks, DRM types, formats, methods and assembly directions",
  "tests check ranks in one streaming test for two orders; trimming, integer versus tuple ranks, orthonormality of the cores and explicit DRMs are not checked over the space of shapes and ranks",
  [T+"sketch.py", T+"sketch_dispatch.py", T+"utils.py", T+"drm_base.py"],
  [("rank trimming and direction choice", T+"sketch.py: stream_sketch, orthogonal_sketch, hmt_sketch, assemble_sketched_tt; "+T+"utils.py: process_tt_rank")],
  (), ["result.shape / rank / cores", "SketchedTensorTrain.left_rank/right_rank/C_cores"])
p("C06", "Transposing commutes with sketching and with every tensor operation",
  "For every tensor format, transposing reverses the order of the modes of the represented tensor, and transposing twice gives back the same tensor. Transposing a streaming sketch gives the streaming sketch of the transposed tensor with the two DRMs exchanged: it has the reversed shape and ranks, represents the transposed approximation, and can be updated, scaled, transposed again and (where supported) increased in rank like any other sketch.",
  ["inputs", "histories", "configurations"],
  "all shapes (also non-palindromic), formats, non-uniform ranks, DRM pairs, and histories mixing transposition with updates",
  "one (failing) test transposes a sketch of one shape and checks only its reconstruction; a transposed sketch is never updated",
  [T+"tensor.py", T+"sketch.py", T+"sketch_container.py", T+"drm_base.py"],
  [("transposition of DRMs, containers and tensors", T+"drm_base.py: DRM.T; "+T+"sketch.py: SketchedTensorTrain.T; "+T+"tensor.py: *.T")],
  [("transpose, shape, rank of a DRM", "which side it sketches and of which tensor shape", T+"drm_base.py: DRM")],
  ["X.T.to_numpy()", "SketchedTensorTrain.T and operations on it"])
p("C07", "A seed fixes the result, whatever ran before and in whichever process",
  "Every seeded operation (random tensors, test tensors, DRMs, seeded sketches) gives the same result whenever it is called with the same arguments and seed: regardless of the calls made before it, the state of numpy's global random generator, the process and its string-hash seed, and the number of processors. Different seeds (below 2^32-1) give different results in every random component, calls without a seed give new results every time, the left and the right matrices drawn for one sketch are unrelated (and so are those of different bonds, other than for the tensor train DRM), and using a seed leaves numpy's global random state as it was.",
  ["histories", "configurations"],
  "all call histories, hash seeds, global random states, processor counts, and seeds (including 0 and the largest ones) for all seeded operations",
  "tests compare two calls within one process with a fixed hash seed, for sketches only",
  [T+"sketch.py", T+"drm_base.py", T+"drm/dense_gaussian_drm.py", T+"drm/sparse_gaussian_drm.py", T+"drm/sparse_sign_drm.py", T+"drm/tensor_train_drm.py", T+"tensor.py", T+"utils.py"],
  [("seed derivation and seeded generators", T+"sketch.py: right_seed; "+T+"utils.py: MultithreadedRNG; "+T+"drm/*: seeds per unfolding")],
  [("numpy global random state", "shared by every caller in the process", "numpy.random")],
  ["results of seeded constructors and sketches in fresh processes and after other calls"])
p("C08", "Thread schedules do not change random generation, DRMs or sketches",
  "The multi-threaded random generator returns only after every entry has been written, and its seeded result is the same for every interleaving of its workers and every number of entries relative to the number of workers. Operations on separate objects, and sketches that share DRMs and tensors, give the same results when run concurrently from several threads as when run one after the other, in every interleaving.",
  ["schedules"],
  "all interleavings (up to a preemption bound) of the generator's workers and of two or three user threads",
  "tests run whatever schedule the operating system happens to produce, mostly the sequential one, and never sketch from several threads",
  [T+"utils.py", T+"drm/dense_gaussian_drm.py", T+"drm/tensor_train_drm.py", T+"drm_base.py", T+"sketch_dispatch.py", T+"tensor.py"],
  [("disjoint slices with one generator each, joined before use", T+"utils.py: MultithreadedRNG.fill"), ("sketching keeps its state in locals and generators", T+"sketch_dispatch.py: general_sketch")],
  [("values, _random_generators", "output array shared by workers", T+"utils.py: MultithreadedRNG"), ("numpy global random state", "shared between threads", "numpy.random")],
  ["random_normal(shape, seed)", "DRM construction and stream_sketch in concurrent threads"])
p("C09", "The lazy Gaussian matrix is a fixed function of seed, index and column",
  "Each entry of the lazily evaluated Gaussian DRM depends only on the seed, the multi-index within the unfolding and the column number: not on which other indices are queried with it, their order or multiplicity, the integer type of the indices, or the range of columns requested. Distinct multi-indices get distinct, finite, standard normal entries for every shape, including shapes with more than 2^31 entries.",
  ["inputs", "configurations"],
  "all index batches, column ranges, shapes (also huge ones), index types and seeds",
  "tests use shapes with at most 11760 entries, small seeds and one or two batches; entries that need more than 31 bits and extreme hash values are never reached",
  [T+"drm/fast_lazy_gaussian.pyx", T+"drm/sparse_gaussian_drm.py"],
  [("index flattening and 64-bit hash, mapped to a normal by the inverse CDF", T+"drm/fast_lazy_gaussian.pyx: _inds_to_rand_double, uint_to_normal, inds_to_normal")],
  (), ["inds_to_normal(...)", "SparseGaussianDRM.sketch_sparse(...)"])
p("C10", "Each row of the sparse sign matrix has exactly the requested +/-1 entries",
  "Each row of the sparse sign DRM has exactly the requested number of non-zero entries (by default all), each +1 or -1, at positions and with signs that depend only on the seed and the multi-index. Requesting a range of columns returns exactly those columns of the full matrix, for left and right DRMs, and per-bond numbers of non-zeros refer to the bonds in the same order as the ranks do.",
  ["inputs", "configurations"],
  "all index batches, shapes (also with more than 2^31 entries), ranks, numbers of non-zeros, column ranges, sides and seeds, including extreme hash values",
  "one test checks a single shape, rank and seed; extreme hash values, right DRMs with custom non-zeros and slices of them are not run",
  [T+"drm/fast_lazy_gaussian.pyx", T+"drm/sparse_sign_drm.py", T+"drm_base.py"],
  [("hash-driven partial shuffle of signs", T+"drm/fast_lazy_gaussian.pyx: _inds_to_sparse_sign"), ("per-bond number of non-zeros", T+"drm/sparse_sign_drm.py: nnz")],
  (), ["inds_to_sparse_sign(...)", "SparseSignDRM.sketch_sparse(...)"])
p("C11", "Tensor arithmetic represents dense arithmetic for every expression",
  "Every expression built from tensors of any formats with +, -, negation, scalar multiplication and division, transposition, in-place addition, weighted sums, splitting, TT addition and conversion between formats represents the tensor obtained by doing the same operations on dense arrays. The shape of every intermediate result is that of the dense result.",
  ["inputs", "programs"],
  "all expressions up to a depth over all formats, shapes and scalars",
  "tests evaluate six fixed expressions over pairs of random tensors of one shape",
  [T+"tensor.py", T+"sketch.py"],
  [("lazy sums and per-format scalar multiplication", T+"tensor.py: Tensor.__add__, TensorSum, *.__mul__, SparseTensor.split, TensorTrain.add")],
  [("TensorSum.tensors", "list of summands, shared or copied between results", T+"tensor.py: TensorSum")],
  ["to_numpy(), shape of every intermediate result"])
p("C12", "Inner products, norms, errors and gathered entries agree with dense values",
  "For every pair of tensors of any formats (sums and sketched tensor trains included) and equal shape, the inner product in either order, the norm, and the error in all its variants (absolute, relative, root-mean-square, fast) equal what the dense arrays give, with infinity for a relative error to the zero tensor. Gathering entries returns the dense entries at those indices in the given order, and never a value for an index outside the tensor, also repeatedly and after a tensor's entries were modified in place. The partial contractions of a tensor train, from the left and from the right, are the products of its first and of its last cores.",
  ["inputs", "histories", "configurations"],
  "all pairs of formats, shapes, values (also zero and badly scaled), flags and index lists, and histories that modify entries between queries",
  "tests use one random pair per format combination of one shape; sums, sketched tensors, zero tensors with the fast formula, combined flags, gathering and cached state are not covered",
  [T+"tensor.py", T+"sketch.py"],
  [("double-dispatched dot with specialised kernels", T+"tensor.py: Tensor.dot, SparseTensor.dot/gather, TensorTrain.dot/gather, TensorSum.dot, CPTensor.gather"), ("error formulas", T+"tensor.py: Tensor.error, TensorTrain.error")],
  [("SparseTensor.dict", "lookup table derived from the entries", T+"tensor.py: SparseTensor")],
  ["dot, @, norm, error, gather"])
p("C13", "No operation changes its operands",
  "Apart from in-place addition to a sum and explicit assignment, no operation of the library (arithmetic, transposition, conversion, rounding, sketching, updating, applying linear maps, solving) changes the tensors, DRMs, linear maps, arrays or lists it is given, or objects derived from them earlier. Assigning a core of a result, or adding in place to a sum, never changes the tensors it was computed from.",
  ["histories", "programs"],
  "all histories of operations on shared operands up to a length",
  "one test checks one attribute after one rounding; no other test looks at its operands afterwards",
  [T+"tensor.py", T+"sketch.py", T+"sketch_container.py", T+"sketch_dispatch.py", T+"tt_gmres.py", T+"tt_svd.py", T+"utils.py", T+"drm_base.py", T+"drm/"],
  [("results are built from new arrays and lists", T+"tensor.py, "+T+"tt_gmres.py: deepcopy and list comprehensions")],
  [("cores, entries, factors, tensors lists", "mutable state shared by reference", T+"tensor.py")],
  ["deep snapshots of every live object around every operation"])
p("C14", "TT rounding, orthogonalization and singular values are correct",
  "Rounding returns a tensor train of the same shape whose ranks respect the given maximum and what the shape allows, whose cores except the first are right-orthonormal, and whose squared error is at most the sum over the bonds of the discarded squared singular values of the unfoldings; with neither truncation it represents the same tensor. Singular values dropped because of the tolerance are below the tolerance times the largest one. Orthogonalization keeps the tensor and makes all cores but the last left-orthonormal, and the reported singular values are those of the unfoldings, for every rank including ranks larger than the dimensions allow.",
  ["inputs", "configurations"],
  "all shapes, ranks (also larger than possible), values (rank-deficient, zero, scaled), tolerances and rank bounds",
  "tests round one shape with one construction and two settings; singular values are never tested",
  [T+"tensor.py", T+"utils.py"],
  [("QR sweep and SVD sweep", T+"tensor.py: TensorTrain.orthogonalize, round, svdvals, add")],
  (), ["TensorTrain.round(...)", "TensorTrain.orthogonalize()", "TensorTrain.svdvals()"])
p("C15", "TT-SVD is exact at full rank and quasi-optimal under truncation",
  "The TT-SVD of any tensor in any format has the tensor's shape, ranks within the requested ones and those the shape allows, orthonormal left cores, and a squared error of at most the sum over the bonds of the squared singular values of the unfoldings beyond the rank. Without a rank bound, or with one at least the TT-rank, it represents the tensor exactly up to rounding.",
  ["inputs", "configurations"],
  "all tensors, formats, shapes and rank bounds",
  "no test calls TT-SVD",
  [T+"tt_svd.py", T+"utils.py"], [("successive truncated SVDs", T+"tt_svd.py: tt_svd")], (), ["tt_svd(tensor, rank)"])
p("C16", "Rank trimming gives the largest admissible ranks",
  "Trimming a TT-rank for a shape gives, for every bond, the largest rank that is at most the requested one and is attainable: no rank exceeds a neighbouring rank times the dimension between them (with boundary ranks 1), and no larger ranks below the request have this property. Ranks given as an integer mean that rank on every bond, sequences keep their values and order, and a sequence of the wrong length is rejected.",
  ["inputs"],
  "all shapes and all requested ranks",
  "no test calls rank processing directly; sketch tests use a handful of ranks",
  [T+"utils.py"], [("fixpoint iteration over the bonds", T+"utils.py: trim_ranks, process_tt_rank")], (),
  ["process_tt_rank(rank, shape, trim)", "trim_ranks(dims, ranks)"])
p("C17", "Matricization and pseudo-inverse helpers obey their definitions",
  "Matricizing an array along any ordered selection of modes moves exactly these modes to the front in the given order and flattens the others in their order; undoing a single-mode matricization gives back the array. The one-sided pseudo-inverse products equal multiplication by the Moore-Penrose inverse for matrices of any shape and rank, and the oblique projector is the projector onto the range of the first matrix along the complement given by the second.",
  ["inputs", "configurations"],
  "all array shapes, all ordered mode selections, all small integer matrices of any rank",
  "no test calls these helpers; sketch tests use them on full-rank matrices and a few mode choices",
  [T+"utils.py"], [("transpose and reshape; least squares", T+"utils.py: matricize, dematricize, left_mul_pinv, right_mul_pinv, projector")], (),
  ["matricize, dematricize, left_mul_pinv, right_mul_pinv, projector"])
p("C18", "TT linear maps act as the matrices they represent",
  "Applying a matrix product operator to a tensor train equals applying the dense operator it represents; transposition gives the transposed operator, the identity operator leaves tensors unchanged, scalar multiples, compositions and sums of maps act accordingly, and summing maps with different shapes is rejected. The mode preconditioner's forward map multiplies the chosen mode by its matrix, and its default application is the exact inverse of that, on every mode.",
  ["inputs", "configurations", "programs"],
  "all operator and tensor cores (by multilinearity: all combinations of basis cores), in/out shapes, ranks, modes and compositions",
  "one test applies one symmetric random operator to one tensor train, which cannot tell it from its transpose; preconditioner, sums, scaling and rectangular operators are not tested",
  [T+"tt_gmres.py", "scripts/cookie_problem.py"],
  [("core-wise contraction; triangular solve", T+"tt_gmres.py: MPO, TTPrecond, TTLinearMapSum; scripts/cookie_problem.py: CookieMap")], (),
  ["map(tt).to_numpy() against the dense operator"])
p("C19", "Rounding a sum of tensor trains respects the rank bound and recovers low rank",
  "For every rounding method (exact, pairwise, streaming sketch, orthogonal sketch) and every non-empty sum of tensor trains, the result has the sum's shape and ranks at most the given maximum, and equals the sum up to rounding when the sum's TT-rank is within the maximum (for pairwise rounding: that of every partial sum). The deterministic methods also satisfy the accuracy implied by the tolerance, a single summand is rounded like any other sum, and an unknown method is rejected.",
  ["inputs", "configurations"],
  "all sums (1 to many summands), shapes, maximum ranks, tolerances and methods",
  "no test calls it",
  [T+"tt_gmres.py", T+"tensor.py", T+"sketch.py"], [("four rounding strategies", T+"tt_gmres.py: round_tt_sum")], (), ["round_tt_sum(...)"])
p("C20", "TT-GMRES reaches the requested residual and reports true residuals",
  "For a non-singular linear map and ranks that need no truncation, TT-GMRES returns a solution whose true (preconditioned) residual relative to the right-hand side is at most the requested tolerance unless the iteration limit was reached, up to a moderate multiple of the tolerance by which the intermediate roundings perturb it, and for well-conditioned maps it comes within a small multiple of the tolerance in about as many iterations as there are unknowns or fewer. Up to the same perturbation the reported residual norms are the true ones, and they do not increase; a start vector that already solves the system is returned unchanged, a final rank bound, final rounding method or reporting option affects only the returned solution (whose ranks respect that bound) and not the iteration, and mismatched shapes are rejected.",
  ["inputs", "histories", "configurations"],
  "all small systems, right-hand sides (also zero), start vectors, tolerances, iteration limits, symmetric or general, preconditioned or not, deterministic rounding methods",
  "no test runs the solver",
  [T+"tt_gmres.py", T+"tensor.py"], [("Arnoldi process with rounding, least squares on the Hessenberg matrix, stopping test", T+"tt_gmres.py: tt_sum_gmres")],
  [("H_matrix, nu_list, residual_norm", "Krylov basis and projected problem", T+"tt_gmres.py: tt_sum_gmres")],
  ["result, history['residual_norm']"])
p("C21", "Inconsistent arguments are rejected instead of giving a wrong result",
  "Sketching a tensor with a DRM of another shape or of a rank other than the requested one, mixing left and right ranks of which neither side is consistently larger, giving a rank sequence of the wrong length, sketching a format the DRM cannot handle, slicing or enlarging a DRM that does not support it, and weighting a sum with the wrong number of weights all raise an exception. No such call returns a result.",
  ["inputs", "configurations"],
  "all combinations of shapes, rank vectors, DRM types, formats and methods that are inconsistent",
  "no test checks a rejection",
  [T+"sketch.py", T+"drm_base.py", T+"sketch_dispatch.py", T+"utils.py", T+"tensor.py", T+"tt_gmres.py"],
  [("validation at entry", T+"sketch.py: rank checks; "+T+"drm_base.py: handle_transpose; "+T+"utils.py: process_tt_rank; "+T+"sketch_dispatch.py: get_sketch_method")], (),
  ["exceptions of the sketching entry points"])
p("C22", "Constructors deliver the shape, rank, structure and size they promise",
  "Random and zero tensors of every format have the requested shape and rank (after the documented trimming), number of non-zeros at distinct positions, orthonormal cores or factors where promised, and every entry is filled with a finite random number; the matrices of Gaussian DRMs consist of different standard normal numbers, and the left and right ones of a sketch share none. The test tensors have the requested shape and follow their formulas, and the reported size of every tensor, sum or sketch is the number of values it stores.",
  ["inputs", "configurations"],
  "all shapes, ranks, numbers of non-zeros, options and numbers of entries relative to the number of workers",
  "tests only use constructors as fixtures with a few shapes; the test-tensor generators and sizes are never tested",
  [T+"tensor.py", T+"utils.py", T+"sketch.py", T+"tt_gmres.py"],
  [("random constructors and size accounting", T+"tensor.py: random, zero, size; "+T+"utils.py: random_normal, hilbert_tensor, sqrt_tensor, power_decay_tensor")], (),
  ["attributes and arrays of constructed tensors"])
p("C23", "The experiment log runs each configuration once and survives interruptions",
  "An experiment whose name and parameters were completed before, in this or an earlier session reading the same file, is not run again, and one that was not is run exactly once and its parameters and results are recorded. If the process stops at any moment while an experiment is being saved, reopening the file finds every previously completed experiment intact. (Experiments of one name take the same parameter names; values are identified by their printed form, integers up to 2^53.)",
  ["histories", "crash_points"],
  "all histories of running experiments, reopening the file and stopping in the middle of a save, over parameter values of the supported kinds (numbers, strings, None, classes, tuples)",
  "nothing in scripts/ is tested",
  ["scripts/experiment_base.py"], [("lookup by name and parameters, save after each run", "scripts/experiment_base.py: Experiment.do_experiment, check_experiment_done, save")],
  [("csv file", "the durable log", "scripts/experiment_base.py: Experiment.save")],
  ["number of runs of the experiment function, contents after reopening"])
p("C24", "Sketched approximations equal the published formulas for tensors of any rank",
  "For every tensor, low-rank or not, in every format, the streaming sketch converts to the tensor train given by the two-sided sketch formula (cores times pseudo-inverses of the small matrices), and the one-sided (HMT) and orthogonal sketches equal the successive projections onto the ranges of the sketched (respectively obliquely sketched) unfoldings, computed with the same DRMs. The error of the one-sided sketch is therefore orthogonal to the result.",
  ["inputs", "configurations"],
  "all tensors, shapes, formats, ranks, DRM pairs, methods and assembly directions for which the formulas are numerically well conditioned",
  "tests only sketch tensors that are recovered exactly, where many wrong formulas give the same answer",
  [T+"sketch.py", T+"sketch_dispatch.py", T+"utils.py", T+"sketching_methods/", T+"drm/"],
  [("assembly and orthogonalization steps", T+"sketch.py: assemble_sketched_tt; "+T+"sketch_dispatch.py: general_sketch, orth_step")], (),
  ["to_numpy() of the results against a dense evaluation of the formulas"])

p("C25", "Answers depend only on the values an object holds, never on its past",
  "Whatever was asked of a tensor, streaming sketch or linear map before, however it was derived from others, and however its stored values were changed since (in place or by assigning new cores, entries or summands of the same shape), every query and every operation on it gives what it gives for a newly constructed object with the same stored values: values, norms, products, errors, gathered entries, singular values, rounding, orthogonalization, conversions, arithmetic and sketches with given DRMs.",
  ["histories", "inputs"],
  "all histories of queries, derivations and in-place changes or assignments of values, for every format, sums, sketches and matrix product operators",
  "tests build each object anew and ask one thing of it; state left behind by an earlier query, or properties remembered from a derivation, are never compared after a change",
  [T+"tensor.py", T+"sketch.py", T+"sketch_container.py", T+"tt_gmres.py", T+"drm/"],
  [("stored arrays and what is remembered next to them", T+"tensor.py: DenseTensor, SparseTensor, TensorTrain, CPTensor, TuckerTensor, TensorSum; "+T+"sketch.py: SketchedTensorTrain; "+T+"tt_gmres.py: MPO")],
  [("data, entries, indices, cores, factors, tensors, Psi_cores, Omega_mats", "the values an object holds, which may be changed", T+"tensor.py, sketch.py, tt_gmres.py")],
  ["every public query of an object after a history, against a new object"])
p("C26", "Benchmark runs report the true error of the approximation asked for",
  "Each benchmark function (streaming, orthogonal and one-sided sketch, TT-SVD, TT rounding) computes an approximation with the method, ranks, DRM types and recompression rank it is given and reports, as its error, the true relative Frobenius error of that approximation, or exactly what a given error function returns for that approximation and the input tensor. The ranks never exceed those requested (or the recompression rank), additional parameters that only label a run change nothing, the input is left unchanged, and the experiment log records the same number.",
  ["inputs", "configurations"],
  "all tensors, formats, rank requests, DRM types, recompression ranks, error functions and labels",
  "nothing in scripts/ is tested",
  ["scripts/experiment_base.py", T+"sketch.py", T+"tt_svd.py", T+"tensor.py"],
  [("one function per method that computes, times and measures", "scripts/experiment_base.py: experiment_stream_sketch, experiment_orthogonal_sketch, experiment_hmt_sketch, experiment_tt_svd, experiment_tt_round")], (),
  ["returned dictionary, arguments of the error function, recorded rows"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
