#!/usr/bin/env python3
# Writes properties.jsonl. One entry per property: P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms, observe_at, hook)
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []
def P(id, title, statement, over, qtext, why, files, mech, obs, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    rows.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

P("C01", "QIS populations are valid and the convergence flag is honest",
  "For every accepted problem, quasirandom integer sampling returns an array of the implied shape holding non-negative integers that sum exactly to the reported population, which is the common total of the marginals. The convergence flag is true exactly when summing the result over the dimensions absent from each marginal, and ordering the remaining dimensions as listed, reproduces every marginal exactly.",
  ["inputs"], "all index lists (any order, any overlap, non-adjacent and reversed dimensions), marginal arrays, sizes, populations and skips that the function accepts, including zero populations, zero rows and mutually inconsistent overlapping marginals",
  "The tests check a dozen fixed, mostly 2- to 4-dimensional, ascending-index problems; the dimension-mapping code is only wrong for particular combinations of order, overlap and size.",
  ["src/QIS.cpp", "src/Microsynthesis.h", "src/Index.cpp", "src/module.cpp"],
  [("without-replacement sampling and m_conv bookkeeping", "src/QIS.cpp:QIS::solve_m"), ("dimension mapping", "src/Index.cpp:MappedIndex"), ("population and validation", "src/Microsynthesis.h:Microsynthesis::createMappings")],
  ["return value and statistics of qis in python and R"])
P("C02", "QIS always satisfies the marginals of consistent, acyclic problems",
  "Whenever the marginals agree wherever they overlap and are listed so that the dimensions each one shares with the earlier ones all lie within a single earlier marginal, quasirandom integer sampling meets every marginal exactly and reports convergence. In particular this holds for every problem whose marginals have no dimension in common.",
  ["inputs"], "all decomposable problems listed in running-intersection order: any number of dimensions and sizes, any counts including zeros, any order of dimensions inside a marginal, any skips, populations from 0 to about a million",
  "Unit tests only contain a handful of such problems and none with zeros, large populations, permuted indices or many overlapping marginals.",
  ["src/QIS.cpp", "src/NDArrayUtils.h", "src/Index.cpp"],
  [("conditional sampling of free dimensions on the already sampled ones", "src/QIS.cpp:sample, recursive_sample"), ("slicing and reduction", "src/NDArrayUtils.h:slice, reduce")],
  ["return value and statistics of qis"])
P("C03", "QIS draws each individual at its Sobol point, without replacement",
  "The sampled population is exactly the one obtained by taking consecutive Sobol points and, for each, assigning to every dimension the category at which the cumulative count first exceeds that dimension's own coordinate times the count available: marginals are visited in the order listed, the not yet assigned dimensions of each from the last listed to the first, using the counts that remain given the categories already assigned. Each individual so placed is then removed from all marginals.",
  ["inputs"], "all accepted problems with consistent overlaps and any skips, compared cell by cell with an independent model in exact integer arithmetic",
  "Tests check only sums and loose chi-squared bounds, so biased, mis-ordered or wrongly conditioned sampling that still meets the marginals passes.",
  ["src/QIS.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/NDArrayUtils.h"],
  [("inverse-CDF pick", "src/QIS.cpp:pick"), ("order of marginals and dimensions", "src/QIS.cpp:sample, recursive_sample"), ("decrement of marginals", "src/QIS.cpp:QIS::solve_m")],
  ["population array returned by qis"])
P("C04", "IPF statistics describe the returned array truthfully",
  "For every accepted problem, iterative proportional fitting returns a finite non-negative array of the seed's shape together with the population total rounded to an integer, an iteration count between 1 and 1000, and a maximum error equal to the largest absolute deviation of the returned array's partial sums from the marginals. Convergence is reported exactly when that error is below 1e-8, and iteration stops early only on convergence.",
  ["inputs"], "all seeds (including sparse ones and ones with no solution), index lists with any order and overlap, real-valued marginals of any representable scale",
  "Tests check convergence on a few well-conditioned problems only; a wrong error, flag or early stop needs overlapping, infeasible, slowly converging or badly scaled problems.",
  ["src/IPF.h", "src/Microsynthesis.h", "src/module.cpp"],
  [("error computation and tolerance", "src/IPF.h:IPF::computeErrors"), ("deviations", "src/Microsynthesis.h:rDiff"), ("iteration bound", "src/IPF.h:IPF::solve")],
  ["return value and statistics of ipf"])
P("C05", "IPF solutions keep the seed's structure and reach the true fit",
  "A converged fit equals the seed multiplied by one factor per cell of each marginal, so seed zeros stay zero, cross-product ratios not controlled by the marginals are preserved, scaling the seed by a constant changes nothing, and re-fitting an exact solution returns it in one iteration. It agrees with an independently computed fit, and is unaffected (to rounding and tolerance) by the order in which marginals, or dimensions within them, are listed and by consistently permuting the axes.",
  ["inputs"], "all feasible problems with positive or sparse seeds, 2 to 6 dimensions, with marginals of one or more dimensions in any order and overlap",
  "Tests compare a couple of closed-form 2-d results; wrong scaling along an axis can still satisfy the marginals while destroying the seed's association structure.",
  ["src/IPF.h", "src/Microsynthesis.h", "src/Index.cpp", "src/NDArrayUtils.h"],
  [("cyclic rescaling to each marginal", "src/Microsynthesis.h:rScale"), ("reduction onto preserved dimensions", "src/NDArrayUtils.h:reduce")],
  ["return value of ipf"])
P("C06", "QISI populations are valid, honest and confined to possible states",
  "For every accepted problem, seeded integer sampling returns non-negative integers summing exactly to the population, reports convergence exactly when every marginal is reproduced, and never populates a state whose seed value or expectation is zero. The reported expectation is the iterative proportional fit of the seed to the marginals, and the call fails with an exception rather than an approximate result only if the input is malformed or no state is possible at all.",
  ["inputs"], "all seeds (dense, sparse, badly scaled, infeasible), index lists with any order and overlap, integer marginals and skips",
  "Tests use unity seeds and independent marginals; failures appear with zeros in the seed, overlapping marginals, or once sampling has run into a dead end.",
  ["src/QISI.cpp", "src/IPF.h", "src/Microsynthesis.h"],
  [("sampling from the IPF solution and bookkeeping", "src/QISI.cpp:QISI::solve"), ("recalculation", "src/QISI.cpp:QISI::recomputeIPF")],
  ["return value and statistics of qisi"])
P("C07", "Skips advance every sampler by the documented number of Sobol points",
  "Asking a Sobol sequence, or either quasirandom sampler, to skip n points discards exactly the largest power of two smaller than n (one point for n=1, none for n=0), so all n with the same such power give identical results and the following output is that of the unskipped sequence from that position. This is the same in Python and R and for the samplers as for the sequence itself; a skip count that is negative or not representable in 32 bits is rejected.",
  ["inputs", "configurations"], "all skip counts from 0 to the 32-bit range (executed up to about 2^26 points), all dimensions, all three consumers and both languages",
  "Tests try two or three skip values on the sequence and none on the samplers, where skips were partly ignored.",
  ["src/SobolImpl.cpp", "src/Sobol.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
  [("skip", "src/SobolImpl.cpp:nlopt_sobol_skip"), ("samplers' sequence setup", "src/QIS.cpp:QIS::QIS, src/QISI.cpp:QISI::QISI")],
  ["SobolSequence, qis, qisi and the R equivalents"])
P("C08", "Sobol points are exactly the Joe-Kuo sequence in every dimension",
  "For every dimension count from 1 to 1111, the i-th generated point has as coordinates the exact binary fractions of the Joe-Kuo (2003) Gray-code Sobol sequence, starting from the point with every coordinate one half. Every coordinate lies strictly between 0 and 1, and the coordinates of a lower-dimensional sequence are those of a higher-dimensional one truncated.",
  ["inputs"], "all dimension counts 1..1111, every coordinate, point indices from the first into the billions (by skipping)",
  "Tests check three points in three dimensions; a wrong direction number, polynomial or shift affects single dimensions or only late points.",
  ["src/SobolImpl.cpp", "src/SobolData.h", "src/Sobol.cpp"],
  [("direction numbers and recurrence", "src/SobolImpl.cpp:sobol_init, src/SobolData.h"), ("Gray-code step", "src/SobolImpl.cpp:sobol_gen")],
  ["SobolSequence in python, sobolSequence in R"],
  state=[("direction numbers", "per dimension and bit", "src/SobolImpl.h:SobolData.m")])
P("C09", "Sobol generators are independent, restartable and end cleanly",
  "Generator objects never influence one another: any interleaving of calls on any number of generators, their creation and destruction, and other library calls yields for each the same points as when used alone, and points already returned never change afterwards. A generator delivers exactly 2^32-1 points (counting skipped ones) and from then on only signals the end of iteration, and a dimension outside 1..1111 is refused with an exception.",
  ["histories", "inputs"], "all interleavings of construction, iteration, destruction and other calls over many generators, and the end of the sequence",
  "Tests use at most two generators in lock-step and cannot reach the end of the sequence.",
  ["src/Sobol.cpp", "src/SobolImpl.cpp", "src/module.cpp"],
  [("per-object state", "src/SobolImpl.h:SobolData"), ("end of sequence", "src/SobolImpl.cpp:sobol_gen, src/module.cpp:SobolGenerator::next"), ("dimension validation", "src/Sobol.cpp")],
  ["SobolSequence iteration protocol, Sobol class"], "HUMANLEAGUE_MONITOR: start value of the point counter, so that exhaustion is reachable")
P("C10", "One-dimensional integerisation is optimal and exact",
  "Converting fractions and a population to integer frequencies returns non-negative integers that sum exactly to the population, each equal to its proportional share rounded down or up, with the roundings-up given to the largest remainders, so that no other such vector is closer in the least-squares sense. The reported rmse is the root mean square difference between the result and the exact shares.",
  ["inputs"], "all fraction vectors (unnormalised in Python, zeros, ties, widely varying magnitudes, up to thousands of entries), populations from 0 to the int32 range, through the two-argument form, the one-argument 1-d form and R's prob2IntFreq",
  "Tests check four vectors of four values; off-by-one and ordering errors need ties, many categories or rounding noise.",
  ["src/Integerise.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
  [("largest remainder allocation", "src/Integerise.cpp:integeriseMarginalDistribution"), ("1-d special case", "src/Integerise.cpp:Integeriser::Integeriser")],
  ["return value and rmse of integerise, prob2IntFreq"])
P("C11", "Multidimensional integerisation preserves totals and tells the truth",
  "For every non-negative array whose total and sum over each axis slice are integral to within 1e-4 (and, so rounded, add up to the same total along every axis), integerisation returns non-negative integers of the same shape and exact total, zero wherever the input is zero, without raising. It reports convergence exactly when all one-dimensional marginal sums are preserved, reports the exact root mean square difference from the input, and returns arrays that are already integral unchanged; arrays without integral marginal sums are refused.",
  ["inputs"], "all arrays of 2 to 6 dimensions with integral axis sums, dense and sparse, plus ones violating the requirement",
  "Tests contain two arrays; dead ends, zeros and rounding of marginals only occur in particular arrays.",
  ["src/Integerise.cpp", "src/QISI.cpp", "src/module.cpp"],
  [("marginal construction and rounding check", "src/Integerise.cpp:Integeriser::Integeriser, checked_round"), ("sampling", "src/QISI.cpp:QISI::solve")],
  ["return value and statistics of integerise"])
P("C12", "Flattening a population is lossless and ordered",
  "Flattening an n-dimensional count array yields n columns with one entry per individual, such that counting equal rows reproduces the array exactly, rows appear in row-major order of the states, and category labels start at 0 in Python and 1 in R. Negative counts are refused.",
  ["inputs"], "all arrays of 1 to 8 dimensions, including zeros, empty populations, singleton dimensions and any integer dtype or memory layout",
  "Tests check column totals of one population, which a wrong row pairing or order still satisfies.",
  ["src/NDArrayUtils.h", "src/module.cpp", "src/rcpp_api.cpp"],
  [("row expansion", "src/NDArrayUtils.h:listify"), ("conversion", "src/module.cpp:flatten, src/rcpp_api.cpp:flatten")],
  ["return value of flatten in python and R"])
P("C13", "Inputs are never modified and results own their data",
  "No call changes any array, list or object passed to it, even if the call fails, and works on read-only inputs. Every returned array is a fresh, writable, well-formed array independent of the inputs, of library internals and of every other result: writing to any of them, or freeing the inputs, never changes the others or later results.",
  ["histories", "inputs"], "all functions in both languages, all accepted and rejected inputs, all orders of calls, writes and frees, with the same array object passed in several roles",
  "Tests never look at inputs after a call, nor use results after later calls or frees.",
  ["src/module.cpp", "src/rcpp_api.cpp", "src/NDArray.h", "src/QIS.cpp", "src/QISI.cpp"],
  [("copy in, copy out", "src/module.cpp:toNDArray, asNDArray, fromNDArray"), ("samplers consume their own copy of the marginals", "src/module.cpp:qis, qisi")],
  ["python and R objects before and after calls"])
P("C14", "Results depend only on the values passed, not on their representation",
  "Passing the same values as a list, tuple or array of any integer or floating type, byte order, alignment, memory layout (C, Fortran, transposed, strided, reversed, broadcast, view), list type of the index specification or writability gives identical results. This includes failing identically.",
  ["inputs", "configurations"], "all public Python functions crossed with all numpy representations of equal-valued arguments",
  "Tests only pass freshly created contiguous arrays of the native type.",
  ["src/module.cpp"],
  [("conversion of arguments", "src/module.cpp:input_array, toNDArray, asNDArray")],
  ["return values of all python functions"])
P("C15", "Every function is deterministic and independent of earlier calls",
  "Repeating any call with equal arguments gives bit-identical results and statistics, whatever other calls (successful or failing) were made before or in between, in the same process or another one. In particular samplers always start from the same point of the quasirandom sequence.",
  ["histories"], "all sequences of calls to all functions, including failed calls, sequence generators in use, and different processes, hash seeds and memory contents",
  "Tests make each call once in a fixed order; leaked state or uninitialised reads show only under other histories.",
  ["src/QIS.cpp", "src/QISI.cpp", "src/Sobol.cpp", "src/NDArray.h", "src/module.cpp"],
  [("per-call sequence objects", "src/QIS.cpp:QIS::QIS, src/QISI.cpp:QISI::QISI"), ("initialisation of arrays", "src/NDArray.h, assign calls in src/QIS.cpp, src/QISI.cpp")],
  ["return values and statistics of all functions"])
P("C16", "Goodness-of-fit statistics match their definitions",
  "The expectation returned with an unseeded quasirandom sample is the maximum-entropy array for the marginals (the fit of a unity seed), and reproduces the marginals when they are consistent. The chi-squared statistic is the sum over possible states of squared deviation from expectation divided by expectation, and the p-value is the upper tail probability of that statistic for a chi-squared distribution with as many degrees of freedom as the product of (size - 1) over the dimensions (a step from 1 to 0 or 1 when there is no freedom); both are finite for every converged sample.",
  ["inputs"], "all problems accepted by the samplers, with and without zero marginals and shared dimensions, and statistics from far below to far above their mean",
  "Tests bound the statistics of a few problems loosely; expectation is compared once in R.",
  ["src/QIS.cpp", "src/QISI.cpp", "src/StatFuncs.h", "src/StatFuncs.cpp"],
  [("chi-squared", "src/StatFuncs.h:chiSq"), ("incomplete gamma function", "src/StatFuncs.cpp:gamain, pValue"), ("expectation", "src/QIS.cpp:computeStateValues, QIS::QIS")],
  ["statistics returned by qis and qisi"])
P("C17", "Malformed problems are refused with an exception and nothing else",
  "A problem with mismatched list lengths, fewer than two marginals or dimensions, index lists that do not match the marginal's dimensions, repeated or missing dimensions, inconsistent sizes, totals (differing when rounded to integers) or per-dimension partial sums (differing by more than 1e-8), negative or non-finite values, a seed of the wrong shape, or empty or unrepresentably large arrays is refused promptly with a Python exception. Well-formed problems are never refused (though unseeded sampling may run into a dead end, and raise, if marginals overlap cyclically), and the library keeps working correctly after any refusal.",
  ["inputs"], "all single and combined corruptions of well-formed problems for every function, and all well-formed problems",
  "Tests check about eight hand-written errors; the remaining validation gaps used to hang, crash or return garbage.",
  ["src/Microsynthesis.h", "src/IPF.h", "src/QISI.cpp", "src/NDArray.h", "src/Integerise.cpp", "src/module.cpp"],
  [("validation", "src/Microsynthesis.h:Microsynthesis, createMappings"), ("seed validation", "src/IPF.h:IPF::solve"), ("array sizes", "src/NDArray.h:checkedStorageSize")],
  ["exceptions raised by the python functions"])
P("C18", "No Python call has a memory error or undefined behaviour",
  "Whatever arguments are passed to the Python functions and generators - well-formed, malformed, of any shape, type, layout and value - every call returns or raises a Python exception without out-of-bounds, use-after-free or otherwise undefined behaviour, and every array element is accessed within the bounds of its own dimension.",
  ["inputs", "histories"], "all sequences of calls with valid and hostile arguments, executed in an instrumented build",
  "Tests run uninstrumented on valid inputs, where such errors are mostly silent.",
  ["src/module.cpp", "src/NDArray.h", "src/Index.cpp", "src/NDArrayUtils.h", "src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/Integerise.cpp", "src/StatFuncs.cpp"],
  [("index to offset", "src/NDArray.h:offset"), ("index iteration", "src/Index.cpp"), ("validation of arguments", "src/Microsynthesis.h, src/module.cpp")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer and index monitor reports"], "HUMANLEAGUE_MONITOR: per-dimension index check at every array access")
P("C19", "The R functions solve the same problem the user states, as Python does",
  "For every well-formed problem in R's column-major arrays and 1-based dimensions, the R functions return arrays oriented like the input whose marginal sums match in the user's own dimension order, with honest flags and the same properties as in Python. Fits agree with Python's fits of the same problem, samples equal Python's samples of the problem with its axes and the list of marginals reversed (so that for R \"earlier\" means later in the list), and sequences and frequency allocations are identical.",
  ["inputs", "configurations"], "all problems over 2 to 5 dimensions with any sizes (all different), index order, overlap and seeds, through ipf, qis, qisi, integerise, prob2IntFreq, sobolSequence and flatten",
  "R tests use mostly symmetric or same-sized problems, in which transposition errors are invisible.",
  ["src/rcpp_api.cpp", "R/RcppExports.R", "src/RcppExports.cpp"],
  [("reversal of dimensions, marginals and index lists", "src/rcpp_api.cpp:ipf, qis, qisi"), ("array conversion", "src/rcpp_api.cpp:convertArray")],
  ["return values of the R functions"])
P("C20", "Malformed R calls raise R errors and never damage the session",
  "Whatever arguments are passed to the R functions - missing or wrong dimensions, mismatched, repeated or missing indices, NA, NaN, negative, empty, wrong types, out-of-range counts - the call returns or raises an R error promptly - an error if the problem is malformed - without memory errors or changes to its arguments, and the session continues to work with the same results.",
  ["inputs"], "all corruptions of well-formed R calls, executed with memory-error detection",
  "R tests contain a handful of error cases and run uninstrumented.",
  ["src/rcpp_api.cpp", "src/Microsynthesis.h", "src/NDArray.h", "src/NDArrayUtils.h"],
  [("seed and index checks", "src/rcpp_api.cpp:checkSeed, getDimension"), ("exception translation", "src/RcppExports.cpp")],
  ["R conditions, process status, AddressSanitizer reports"])
P("C21", "Independent computations can run concurrently with unchanged results",
  "Solver and sequence objects that are not shared between threads can be used from any number of threads at the same time without data races, and each produces exactly the result it produces alone. The Python functions give the same results when called from many threads at once, even with the same input arrays.",
  ["schedules"], "all interleavings of fits, samples, integerisations, flattenings, sequence generation and failing calls on 2 to 16 threads",
  "No test uses more than one thread.",
  ["src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/StatFuncs.cpp", "src/Integerise.cpp", "src/Log.h", "src/Global.h"],
  [("no mutable shared state", "per-object members; constant statics in src/QIS.cpp, src/QISI.cpp, src/StatFuncs.cpp"), ("once-only singleton", "src/Global.h")],
  ["ThreadSanitizer reports and results of the C++ classes and the python functions"])
P("C22", "Running out of memory raises an error and leaves the library usable",
  "If any memory allocation made by the library during any call fails, the call raises a memory error (or another exception) without crashing, corrupting memory or leaking, its inputs are unchanged, and the same call succeeds with the same result once memory is available.",
  ["fault_sequences"], "every single allocation made by each kind of call failing in turn, and random multiple failures",
  "Tests never make an allocation fail.",
  ["src/NDArray.h", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/NDArrayUtils.h", "src/Integerise.cpp"],
  [("exception-safe ownership", "src/NDArray.h:resize, NDArray destructor"), ("C allocation checks", "src/SobolImpl.cpp:sobol_init, src/Sobol.cpp")],
  ["exceptions, AddressSanitizer and leak reports with injected allocation failures"])
P("C23", "Repeated use does not leak memory",
  "However often any function is called or any generator created, advanced, exhausted or dropped, successfully or with an error, all memory and references acquired by the call are released once its results are dropped, so memory use stays bounded.",
  ["histories"], "all repetitions of all functions with valid and invalid arguments, in C++ and Python",
  "Each test calls a function a few times and checks no resources.",
  ["src/NDArray.h", "src/SobolImpl.cpp", "src/Sobol.cpp", "src/module.cpp"],
  [("ownership and release", "src/NDArray.h, src/SobolImpl.cpp:nlopt_sobol_destroy"), ("reference handling", "src/module.cpp")],
  ["live heap bytes, reference counts, LeakSanitizer reports"])
P("C24", "Array views, reductions and slices equal their definitions",
  "For arrays of any number and size of dimensions: iterating visits every element exactly once in row-major (or, transposed, column-major) order; reducing onto one or more dimensions, in any order, sums exactly the elements with those coordinates; slicing at any set of fixed dimensions returns exactly the elements with those coordinates in order; and totals, minima, maxima and differences equal those of the plain element list.",
  ["inputs"], "all shapes of 1 to 8 dimensions with sizes 1 to 9, all subsets and orders of dimensions, integer and floating values",
  "The built-in tests use a few shapes, mostly ascending dimension lists, and never check minima, maxima or differences.",
  ["src/NDArray.h", "src/NDArrayUtils.h", "src/Index.h", "src/Index.cpp"],
  [("index iteration", "src/Index.cpp:Index, TransposedIndex, MappedIndex, FixedIndex"), ("reduce, slice, diff, sum, min, max", "src/NDArrayUtils.h")],
  ["C++ array classes and utilities"], "HUMANLEAGUE_MONITOR: per-dimension index check at every array access")
P("C25", "Statistical functions are accurate over their whole range",
  "Over its whole range the cumulative normal function is accurate to near double precision (relative to the value in the lower tail), and its inverse returns a number whose cumulative value is the argument to near double precision (about 1e-9 where the normal density is too small for a double); neither decreases, beyond rounding. For any degrees of freedom the chi-squared upper tail probability is accurate to about 1e-8 (1e-14 per degree of freedom beyond 10^6) or is flagged as potentially inaccurate, which happens only where the density is below 1e-37. Correlating a pair of variates leaves the first unchanged (to within one unit), gives the second the value the Cholesky factorisation defines and hence the requested correlation, and stays within 32 bits, for every correlation in [-1,1], refusing others. Sampling from a discrete distribution without replacement returns each category exactly as often as it was given, each time the one in which the variate falls.",
  ["inputs"], "all arguments including tails and end points, degrees of freedom from 1 to 2^32-1, all 32-bit variates, all frequency vectors",
  "The built-in tests check a few central values.",
  ["src/StatFuncs.cpp", "src/StatFuncs.h", "src/DDWR.h"],
  [("normal distribution", "src/StatFuncs.cpp:cumNorm, invCumNorm"), ("chi-squared", "src/StatFuncs.cpp:pValue, gamain"), ("correlation", "src/StatFuncs.cpp:Cholesky"), ("discrete distribution", "src/DDWR.h")],
  ["C++ statistical functions, p-values returned by the samplers"])
P("C26", "QISI draws each individual at its Sobol point from the current fit",
  "The seeded sample is the one obtained by taking consecutive Sobol points and choosing the category of each dimension, from the last to the first, where the cumulative weight first exceeds that dimension's own coordinate times the weight available given the categories already chosen. The weights start as the fit of the seed to the marginals, each placed individual is deducted from its state, and the fit of the seed to what remains of the marginals replaces them whenever a state becomes negative.",
  ["inputs"], "all accepted problems with consistent marginals and any skips, compared with an independent model wherever no decision lies within rounding or convergence tolerance",
  "Tests check sums and loose chi-squared bounds only.",
  ["src/QISI.cpp", "src/IPF.h", "src/Sobol.cpp"],
  [("inverse-CDF pick", "src/QISI.cpp:pick, getIndex"), ("deduction and recalculation", "src/QISI.cpp:QISI::solve, recomputeIPF")],
  ["population array returned by qisi and integerise"])
with open(OUT, "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
