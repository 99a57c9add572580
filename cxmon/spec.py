"""The properties, as data.  `python3 -m cxmon.spec` regenerates properties.jsonl."""
import json
import os

INPUTS = "inputs"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism):
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": mechanism, "where": ", ".join(files)}],
            },
        }
    )


SUB = "coreax/solvers/coresubset.py"
COMP = "coreax/solvers/composite.py"
REC = "coreax/solvers/recombination.py"
BASE = "coreax/solvers/base.py"
CS = "coreax/coreset.py"
DATA = "coreax/data.py"
KB = "coreax/kernels/base.py"
KS = "coreax/kernels/scalar_valued.py"
KU = "coreax/kernels/util.py"
MET = "coreax/metrics.py"
W = "coreax/weights.py"
LS = "coreax/least_squares.py"
AP = "coreax/approximation.py"
SM = "coreax/score_matching.py"
UT = "coreax/util.py"
BU = "coreax/benchmark_util.py"

prop(
    "C01",
    "Every coresubset is made of exactly the requested rows of its dataset",
    "For every coresubset solver (RandomSample, KernelHerding, SteinThinning, RPCholesky, "
    "GreedyKernelPoints, KernelThinning, CompressPlusPlus, MapReduce over one of them, the "
    "recombination solvers), reduce or refine returns a Coresubset whose number of indices is the "
    "requested coreset_size, whose indices are all integers in [0, len(dataset)), and whose points "
    "(data and, for SupervisedData, supervision) are bit for bit the dataset rows at those indices. "
    "The coresubset's pre_coreset_data is the dataset that was passed, unchanged.",
    ["inputs", "configurations"],
    "all datasets (weighted or not, supervised or not, duplicated, degenerate or badly scaled rows) "
    "and all feasible solver configurations",
    "Tests reduce a few fixed Gaussian or blob datasets of one size; index bookkeeping through padding, "
    "partitioning and recursion only goes wrong at particular sizes, leaf sizes and weights.",
    [SUB, COMP, REC, CS],
    "Coresubset.points gathers rows by index; solvers pad with sentinel indices (-1, 0, n+1) and remap "
    "indices through partitions, halvings and trees",
)
prop(
    "C02",
    "Solvers that promise unique indices never return a repeated index",
    "Whenever uniqueness is promised (unique=True for RandomSample, KernelHerding, SteinThinning, "
    "RPCholesky and GreedyKernelPoints; always for KernelThinning, CompressPlusPlus and MapReduce over a "
    "unique solver), the returned indices are pairwise distinct, after reduce and after refine from any "
    "initial coresubset, including when coreset_size equals the number of (positively weighted) rows, when "
    "rows are duplicated and when the algorithm has numerically converged early.",
    ["inputs", "configurations"],
    "all datasets with at least coreset_size positively weighted rows, all kernels, candidate batch sizes, "
    "seeds and initial coresubsets",
    "Repeats appear only for degenerate kernels, exhausted batches, duplicated rows, or coreset_size close to n.",
    [SUB, COMP],
    "infinite penalties on selected indices, zeroed residual diagonal and uniform fallback, "
    "already-chosen masks, sampling without replacement",
)
prop(
    "C03",
    "Infeasible or invalid configurations are rejected, feasible ones accepted",
    "Constructing or running any public component with an infeasible or invalid parameter (non-positive "
    "sizes, a coreset larger than its dataset, leaf_size not larger than coreset_size, an oversampling factor "
    "out of range, an unknown recombination mode, a non-positive kernel scale, a non-integer or non-positive "
    "power or degree, mismatched supervision, a negative regulariser or pad width, ...) raises the documented "
    "exception type rather than returning a result. Every value strictly inside the documented range, up to and "
    "including its boundary, is accepted.",
    ["inputs", "configurations"],
    "every parameter value of every public constructor or function with a documented validity range",
    "Tests sample one invalid value per parameter and rarely the boundary itself.",
    [BASE, SUB, COMP, REC, CS, DATA, KB, KS, MET, LS, AP, SM, UT, W],
    "__check_init__ hooks and explicit ValueError/TypeError guards",
)
prop(
    "C04",
    "Padding-invariant solvers ignore zero-weighted data",
    "For KernelHerding (deterministic and probabilistic) and SteinThinning (including its default score "
    "function and its regularisation), appending or inserting any number of zero-weighted rows with arbitrary "
    "finite values leaves the selection unchanged: the chosen rows are the ones chosen without the padding (ties within rounding aside; for "
    "the probabilistic variant the selection probabilities are unchanged), and a "
    "zero-weighted row is never selected while enough positively weighted rows remain.",
    ["inputs"],
    "all datasets, all positions, amounts and values of zero-weighted rows, all kernels, block sizes and sizes",
    "Tests append a fixed all-zero padding to one dataset; padding values that would win the greedy objective, or "
    "sit in the middle of the data, are not tried.",
    [SUB, BASE, SM, KU],
    "weights enter the Gramian row mean, the KDE and the score; zero-weighted rows are masked with NaN",
)
prop(
    "C05",
    "KernelHerding makes the greedy herding choice at every step",
    "At every step KernelHerding (reduce, and refine from any uniformly weighted initial coresubset no larger than "
    "coreset_size) selects a positively weighted, not otherwise selected (if unique) row maximising "
    "E[k(x,x')] - (1/T) sum_j k(x,x_j), where the expectation is over the weighted dataset, the sum is over the "
    "other members currently in the coresubset, and T is the number of members including the one being chosen. "
    "The choice does not depend on block_size, unroll or on passing back the returned solver state.",
    ["inputs", "configurations", "histories"],
    "all datasets, weights, kernels, initial coresubsets, block sizes and chains of reduce/refine calls",
    "Tests compare with a reference on a handful of shapes; the running penalty drifts only for particular refine "
    "histories, weights or block paddings.",
    [SUB, KB],
    "_greedy_kernel_selection maintains a running penalty vector; KernelHerding.refine applies Equation 8",
)
prop(
    "C06",
    "Herding refinement never worsens the MMD; iteration is repeated refinement",
    "Refining a full-size, uniformly weighted coresubset with deterministic KernelHerding and a "
    "translation-invariant kernel never increases the (weighted) MMD to the dataset. reduce_iterative with "
    "num_iterations=t equals reduce followed by t-1 refines, and a coresubset that a refine leaves unchanged is "
    "left unchanged by further refines.",
    ["inputs", "histories"],
    "all datasets, weights, initial coresubsets of positively weighted rows (good, bad, random, with repeats if not unique) and numbers of iterations",
    "Tests check the MMD decrease for one dataset and initialisation.",
    [SUB],
    "coordinate-wise minimisation of the MMD by replacing one member at a time",
)
prop(
    "C07",
    "SteinThinning makes the regularised Stein-greedy choice at every step",
    "At step t SteinThinning selects a positively weighted, not otherwise selected (if unique) row minimising "
    "k_p(x,x) + Lap+ log p(x) - lambda t log p(x) + 2 sum_j k_p(x,x_j), where k_p is the Stein kernel induced by "
    "the given kernel and score function (given, matched, or the weighted kernel density default), log p is the "
    "weighted Gaussian KDE, lambda defaults to 1/coreset_size, and the two regularisation terms are absent when "
    "regularise is False.",
    ["inputs", "configurations"],
    "all datasets, base kernels, score functions, regularisation settings, bandwidths and initial coresubsets",
    "Tests fix one kernel with an analytic score; base kernel / Stein kernel mix-ups and wrong step counters need "
    "other configurations to show.",
    [SUB, SM, KS],
    "convert_stein_kernel, SteinThinning.refine selection_function and _greedy_kernel_selection",
)
prop(
    "C08",
    "RPCholesky samples pivots in proportion to the residual diagonal",
    "Given the pivots chosen so far, RPCholesky draws the next pivot with probability proportional to the diagonal of "
    "the residual K - K[:,S] K[S,S]^+ K[S,:] (with already chosen pivots excluded if unique), falling back to the "
    "uniform distribution over unchosen rows once the residual is exhausted. The returned state is the non-negative "
    "residual diagonal after the last pivot.",
    ["inputs", "configurations"],
    "all datasets, kernels, coreset sizes and random keys",
    "A wrong residual update changes only the law of the selection, which a test with a fixed key cannot see.",
    [SUB],
    "RPCholesky._greedy_body: partial Cholesky factor, residual diagonal, fold_in keys",
)
prop(
    "C09",
    "GreedyKernelPoints adds the row with the least kernel ridge loss",
    "At every step GreedyKernelPoints (reduce, and refine from an initial coresubset) selects, among the whole "
    "dataset or the sampled candidate batch and the current member, a row (not already selected if unique) whose "
    "inclusion minimises || y - K_12 (K_22 + lambda I)^-1 y_2 ||^2. With the full batch this minimum is over all "
    "admissible rows, and refining a full-size coresubset never increases the loss.",
    ["inputs", "configurations"],
    "all supervised datasets with one response, kernels, positive regularisation parameters, batch sizes, initial "
    "coresubsets and least-squares solvers",
    "Tests check two or three hand-computed selections.",
    [SUB, LS],
    "_setup_batch_solver padding, _greedy_kernel_points_loss, _update_candidate_coresets_and_coreset_indices",
)
prop(
    "C10",
    "KernelThinning halves fairly, picks its best candidate and never loses to it",
    "kt_half puts exactly one point of every consecutive pair of an even-sized dataset in each half, giving the first point to the second half "
    "with probability (1 - alpha/a)/2 clipped to [0,1], where alpha, a and the sub-Gaussian parameter sigma follow the kernel halving "
    "recursion for the square-root kernel and delta. kt_half_recursive partitions the (clipped) dataset into 2^m index sets of equal size, "
    "kt_choose returns a candidate of least MMD, and the reduced coresubset is the herding refinement of the best of the "
    "2^m = floor-power-of-two(n / coreset_size) candidates and the random baseline, so (translation-invariant kernel) its MMD is never above theirs.",
    ["inputs", "configurations"],
    "all datasets, square-root kernels, values of delta, coreset sizes and random keys",
    "Swap probabilities are invisible for a fixed key, and index remapping through several halvings is only "
    "sampled at one size.",
    [SUB, KS],
    "KernelThinning.kt_half / kt_half_recursive / kt_choose / kt_refine",
)
prop(
    "C11",
    "Compress++ thins exactly the rows it was given, at every size and depth",
    "For every dataset size n, oversampling factor 0 <= g <= floor(log4 n) and coreset_size up to 2^g sqrt(4^floor(log4 n)), "
    "CompressPlusPlus returns coreset_size distinct indices of the original dataset, whether or not n is a power of four, "
    "deterministically for its random key. Its coresubsets represent the dataset: their MMD to the dataset is on average no "
    "worse than that of uniform random samples of the same size.",
    ["inputs", "configurations"],
    "all n, g, coreset sizes, kernels and keys",
    "Tests use one or two (n, g) pairs; index composition across the recursion and the power-of-four clipping vary "
    "with n and g.",
    [SUB],
    "_compress recursion over reshaped index arrays, _compress_half, _compress_thin, power-of-four clipping",
)
prop(
    "C12",
    "MapReduce equals its base solver on decomposable problems and always ends",
    "For every feasible leaf_size and tree type MapReduce terminates and returns the base solver's coreset_size points, "
    "each a real row of the dataset (never internal padding) identified by its index in the original dataset; every row "
    "is presented to the base solver exactly once in the first level. For a base solver whose result does not depend on the "
    "partition (e.g. the k largest rows) MapReduce returns that solver's result on the whole dataset, and for "
    "len(dataset) <= leaf_size it is the base solver's result.",
    ["inputs", "configurations"],
    "all dataset sizes, leaf sizes greater than coreset_size, tree types, data geometries, supervised data, base solvers",
    "Tests use a couple of leaf sizes with a mock solver; non-termination, lost rows and padding leaks occur for "
    "particular n / leaf_size / coreset_size combinations.",
    [COMP, UT],
    "_jit_tree partitioning and padding, index composition through the recursion",
)
prop(
    "C13",
    "Recombination preserves the centre of mass with at most m weighted points",
    "CaratheodoryRecombination and TreeRecombination return non-negative weights summing to one, for which the weighted "
    "mean of every test function equals its weighted mean over the dataset, with at most m = 1 + number of test functions "
    "non-zero weights on distinct, originally positively weighted rows. The number of returned nodes is min(n, m) "
    "('implicit-explicit'), n ('implicit') or the number of non-zero weights ('explicit').",
    ["inputs", "configurations"],
    "all datasets with non-negative weights (zeros, duplicates, rank deficient or constant columns), test functions, "
    "modes, tree reduction factors",
    "Tests use full-rank Gaussian data of one size; rank deficiency, zero weights and tree padding vary with the input.",
    [REC],
    "SVD null space elimination, co-linearisation of zero-weighted nodes, tree centroids and padding, mode dispatch",
)
prop(
    "C14",
    "Kernel means equal the weighted matrix mean for every blocking",
    "compute_mean returns the weighted mean of the matrix k(x_i, y_j) over the requested axis (or both), and "
    "gramian_row_mean that of k(x_i, x_j), using the normalised weights of Data arguments and uniform weights for arrays. "
    "The result does not depend on block_size (integer, tuple, None, larger than the data, not dividing it) or unroll.",
    ["inputs", "configurations"],
    "all data shapes including single rows, all weights including zeros, all kernels, axes and block sizes",
    "Tests enumerate a few block sizes on one shape with unweighted or uniform data.",
    [KB, KU, DATA],
    "_block_data_convert padding and normalisation, nested lax.scan accumulation, operand swap for axis=0",
)
prop(
    "C15",
    "Kernels evaluate their documented formula; algebra composes pointwise",
    "Every scalar kernel's compute (and compute_elementwise) equals its documented closed form at every pair of points, for "
    "scalars, vectors and arrays alike with entry (i,j) = k(x_i, y_j); kernels are symmetric and their Gramians positive "
    "semi-definite. +, * and ** between kernels and scalars evaluate to the pointwise sum, product and power of the operands' "
    "values (for both operand orders and any nesting).",
    ["inputs", "configurations"],
    "all kernel parameters in range, all finite inputs (coincident, far apart, 1-d and many-d), all expression trees",
    "Tests evaluate each formula at one or two points with parameters often equal to one.",
    [KS, KB, UT],
    "compute_elementwise of each kernel class, pairwise vmap, AdditiveKernel/ProductKernel/PowerKernel/_Constant",
)
prop(
    "C16",
    "Kernel derivatives are the true derivatives of the kernel",
    "grad_x, grad_y and divergence_x_grad_y (and their elementwise forms) of every kernel and of every sum, product, power and "
    "scalar combination of kernels equal the mathematical gradient in x, gradient in y and the trace of the mixed second "
    "derivative of compute, wherever the kernel is differentiable, with shapes (n,m,d), (n,m,d) and (n,m).",
    ["inputs", "configurations"],
    "all kernel parameters, points (including coincident ones for smooth kernels), dimensions and expression trees",
    "Hand-derived formulas are tested against copies of themselves and at few parameters.",
    [KS, KB],
    "closed-form overrides and product/power rules",
)
prop(
    "C17",
    "The Stein kernel is the Stein operator applied to its base kernel",
    "SteinKernel.compute(x,y) equals div_x grad_y k + s(x).grad_y k + s(y).grad_x k + (s(x).s(y)) k for its base kernel k and score "
    "function s, is symmetric and positive semi-definite, and has zero mean under the density with score s. "
    "SquaredExponentialKernel.get_sqrt_kernel(d) is the kernel whose self-convolution over R^d is the original kernel.",
    ["inputs", "configurations"],
    "all base kernels (including composites), score functions, points and dimensions",
    "Tests check a few points for one or two base kernels and a standard normal score.",
    [KS],
    "SteinKernel.compute_elementwise, SquaredExponentialKernel.get_sqrt_kernel",
)
prop(
    "C18",
    "MMD and JMMD are the weighted discrepancies they define",
    "MMD and JMMD equal sqrt(max(0, E k(x,x') + E k(y,y') - 2 E k(x,y))) under the normalised weights of both datasets "
    "(the tensor-product kernel for JMMD); they are non-negative, symmetric, zero for equal weighted empirical measures "
    "(permuted, duplicated with split weights, zero-weight padded), obey the triangle inequality, and do not depend on weight scaling, block_size or unroll.",
    ["inputs", "configurations"],
    "all pairs of (supervised) weighted datasets, kernels, block sizes",
    "Tests compare two fixed datasets, mostly unweighted.",
    [MET, KB, DATA],
    "MMD.compute / JMMD.compute block-size product and weighted means",
)
prop(
    "C19",
    "KSD and AMCMD equal their defining expressions",
    "KSD equals the square root of the (weighted) mean of the induced Stein kernel over the comparison data plus the Laplace correction "
    "and minus the entropic regularisation when requested, clamped at zero, independent of block_size. AMCMD equals the root of "
    "the mean squared RKHS distance between the two regularised conditional mean embeddings over the weighting data (the reference "
    "features by default), is zero for identical datasets and unaffected by reordering either dataset.",
    ["inputs", "configurations"],
    "all datasets, kernels, score matchers, flags, regularisation parameters and weighting data",
    "Tests evaluate single fixed examples per flag combination.",
    [MET, SM],
    "KSD.compute / AMCMD.compute",
)
prop(
    "C20",
    "Weight optimisers return the optimal weights for the coreset",
    "SBQWeightsOptimiser returns the solution of (k(c,c) + epsilon I) w = mean_x k(c, x), the mean being weighted by the dataset's weights. MMDWeightsOptimiser returns weights on the "
    "probability simplex (non-negative, summing to one) whose MMD objective is, within solver tolerance, minimal over the simplex and in "
    "particular no worse than uniform weights; solve_weights stores exactly these weights in the returned coreset and changes nothing else.",
    ["inputs", "configurations"],
    "all unsupervised datasets and coresets (coresubsets or pseudo-coresets), kernels, block sizes and epsilon",
    "Tests check one dataset per optimiser.",
    [W, CS],
    "solve_qp OSQP formulation and projection, _prepare_kernel_system, AbstractCoreset.solve_weights",
)
prop(
    "C21",
    "Regularised least-squares solvers solve the regularised (block) system",
    "MinimalEuclideanNormSolver and RandomisedEigendecompositionSolver return X with (A + |lambda| I) X = B for well-conditioned symmetric "
    "A, the minimal-norm least-squares solution for singular systems (singular values below rcond times the largest count as zero; rcond "
    "None or -1 is machine precision, with or without the array's size as a factor), and for a block-padded system exactly the block's "
    "solution padded with zeros; solve_stack solves each system of a stack independently.",
    ["inputs", "configurations"],
    "all symmetric positive semi-definite arrays (including zero-padded blocks), targets, regularisation parameters of either sign, rcond, "
    "oversampling at least the matrix rank, keys",
    "Tests invert one fixed matrix per solver.",
    [LS],
    "lstsq, Gaussian range finder, eigendecomposition inversion with rcond masking, vmapped solve_stack",
)
prop(
    "C22",
    "Approximate kernels only approximate the Gramian row mean",
    "MonteCarlo-, ANNchor- and NystromApproximateKernel evaluate, differentiate and average exactly as their base kernel, return a finite "
    "gramian_row_mean of one value per row, deterministically for their key, independent of the weights, and recover the exact row mean "
    "when the feature points determine it: all (distinct) points used with a positive translation-invariant kernel or, for MonteCarlo and "
    "Nystrom, a kernel of rank no larger than the number of feature and train points. With all rows as train points the row mean is the least-squares regression "
    "of the exact row mean on the Gramian columns of num_kernel_points sampled (ANNchor: farthest) points.",
    ["inputs", "configurations"],
    "all datasets, base kernels, numbers of kernel/train points and keys",
    "Tests bound the error on one dataset with a loose tolerance.",
    [AP],
    "_random_indices, _random_least_squares, ANNchor farthest-point loop",
)
prop(
    "C23",
    "Matched score functions are the score of the density they fit",
    "KernelDensityMatching returns the gradient of the log of the (weighted) Gaussian kernel density estimate, shape preserving for points "
    "and arrays and independent of the other points in the batch. SlicedScoreMatching returns a finite, deterministic (for its key), "
    "shape-preserving function that, trained on Gaussian data, correlates with the true score.",
    ["inputs", "configurations"],
    "all training sets, weights, length scales, query points with representable density, network settings and keys",
    "Tests compare a few densities visually close; weights, batches and shapes are sampled once.",
    [SM, "coreax/networks.py"],
    "KernelDensityMatching.match, SlicedScoreMatching._loss/_train_step/match",
)
prop(
    "C24",
    "Data and coreset containers keep points, supervision and weights aligned",
    "Data and SupervisedData store what they were given (vectors as columns, scalar weights broadcast, missing weights as ones); indexing, "
    "padding and conversion keep rows, supervision and weights aligned; normalize returns weights proportional to the originals summing to "
    "one (preserve_zeros keeps all-zero weights zero). Coresubset and PseudoCoreset built from any accepted argument form expose the same "
    "points, weights, length and metric values.",
    ["inputs"],
    "all array shapes and dtypes, weights (scalar, vector, none, zero), index keys and construction forms",
    "Tests build one object per form.",
    [DATA, CS, UT],
    "converters, __getitem__ tree_map, normalize, Coresubset.points, build",
)
prop(
    "C25",
    "Solvers are deterministic, pure, and transparent to JIT and cached state",
    "Running a solver, metric or weights optimiser twice with equal arguments gives bit-identical results and leaves solver, dataset and "
    "initial coresubset unchanged; running it under jax.jit selects the same coreset (up to ties within rounding). Passing back the solver "
    "state returned by KernelHerding or GreedyKernelPoints for the same dataset gives the same result as passing None.",
    ["inputs", "histories"],
    "all solvers, configurations, datasets, call orders and interleavings",
    "Tests call each solver once or twice with one key.",
    [SUB, COMP, REC, MET, W],
    "explicit random keys, immutable equinox modules, optional solver_state",
)
prop(
    "C26",
    "Utility transforms meet their contracts for every shape and size",
    "sample_batch_indices returns num_batches rows of batch_size distinct indices in [0, max_index), each index equally likely in each "
    "position; tree_zero_pad_leading_axis appends exactly pad_width zero rows to every array leaf and nothing else; tree_leaves_repeat, "
    "pairwise, squared_distance, difference, apply_negative_precision_threshold, median_heuristic and format_time equal their definitions.",
    ["inputs", "configurations"],
    "all shapes, dtypes, pytrees, sizes, thresholds and keys",
    "Tests check fixed small examples.",
    [UT, KU],
    "permutation-based sampling, partition/combine padding, nested vmap",
)
prop(
    "C27",
    "Random selections follow their documented distributions",
    "RandomSample draws uniformly (or in proportion to the weights if weighted), with or without replacement as requested, and never "
    "draws zero-weighted rows when weighted; probabilistic KernelHerding draws each member with probability "
    "softmax(herding objective / temperature) over the admissible rows, tending to the deterministic choice as the temperature goes to "
    "zero. Different keys give different, and different steps independent, draws.",
    ["inputs", "configurations"],
    "all datasets, weights, temperatures, sizes and random keys",
    "The law of a random selection is invisible to a test that fixes the key.",
    [SUB],
    "jr.choice with p/replace, softmax over masked residuals, fold_in per step and per iteration",
)
prop(
    "C28",
    "Benchmark helpers build the solvers they name",
    "initialise_solvers returns, for every solver name, a factory whose solver has the requested coreset size, is wrapped in MapReduce with "
    "the given leaf_size exactly when one is given (for the solvers that support it), and reduces the data to that many distinct rows. "
    "IterativeKernelHerding.reduce equals reduce_iterative with its settings, and calculate_delta returns the documented positive value for "
    "every n >= 1.",
    ["inputs", "configurations"],
    "all training datasets, keys, oversampling factors, leaf sizes, coreset sizes and n",
    "Tests check solver types for one setting.",
    [BU],
    "closure-based solver factories, length scale from the median heuristic, IterativeKernelHerding.reduce",
)

BY_ID = {p["id"]: p for p in P}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
