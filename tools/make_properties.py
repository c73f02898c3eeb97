"""Writes properties.jsonl (one property per line)."""
import json, os

L = "src/sigmaepsilon/math/linalg/"
M = "src/sigmaepsilon/math/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public API calls and their return values"], hook_needed=None)))


prop("C01", "Tensors are objective: frame changes never change what they represent",
     "Whatever happens to a reference frame (assignment of new axes or of items of the axes, rotation, transposition, arithmetic operators, NumPy universal functions writing into it) or to the choice of a tensor's frame, every live vector or tensor attached to it keeps its components in the ambient frame, and its stored components are exactly those with respect to the current axes of its frame. "
     "This holds for any number of tensors of any rank sharing a frame, for single tensors and for collections, with one frame or one frame per item, after any sequence of such operations and after other tensors of the frame were discarded, in whatever units the axes and components are, and for small changes of the axes as well. "
     "Frames and tensors that did not take part in an operation are not affected by it.",
     ["histories", "inputs"], "all finite sequences of frame and tensor mutations over any set of frames with linearly independent axes and any set of tensors",
     "The tests apply one or two hand picked operations to one or two tensors; the guarantee is about every history, and depends on the registry of tensors, weak references, and one kernel per shape of input.",
     [L + "frame.py", L + "meta.py", L + "tensor.py", L + "vector.py", L + "tr.py"],
     [("registration of tensors with their frame", L + "meta.py FrameLike._register_tensorial_"),
      ("component update when axes are set", L + "frame.py ReferenceFrame.axes setter"),
      ("inplace operators that may change the type of the frame", L + "frame.py inplace_binary")])

prop("C02", "Frame algebra: direction cosines, duals, Gram matrices and volumes agree",
     "For any frame with linearly independent axes, the matrix of a transformation from one frame to another maps the components of every vector in the first to its components in the second, hence it is the identity from a frame to itself, inverts when the frames are swapped and composes along a chain of frames. "
     "The base vectors of the dual frame are biorthogonal to those of the frame and the dual of the dual is the frame, the Gram matrix and the metric tensor hold the scalar products of the base vectors, and the volume is the signed volume they span. "
     "Orienting a frame yields the axes rotated by the requested rotation, and all of this holds for collections of frames item by item, and in whatever units the axes are.",
     ["inputs"], "all frames (general, rectangular, cartesian, left-handed, collections) of any dimension and all pairs and chains of them",
     "Tests evaluate these on a few orthonormal 3d frames, where most of the identities hold even for wrong formulas.",
     [L + "frame.py", L + "utils.py"],
     [("dcm, show, dual, Gram, volume, orient", L + "frame.py ReferenceFrame / CartesianFrame"),
      ("array kernels", L + "utils.py show_frame, dual_frame, Gram, transpose_axes")])

prop("C03", "Frame classes only promise what holds, and operators yield the right frame",
     "An instance of the rectangular (cartesian) frame class always has mutually perpendicular (and unit length) axes, whether it was created from axes, copied, or changed by assigning axes, rotation, transposition or operators: input and operations that would break this are rejected with an exception and leave the frame unchanged, or yield an instance of a more general class. "
     "Arithmetic operators and universal functions on frames return frames whose axes are the result of the same operation on the axes, and the operand stays as it was unless the operation is an inplace one. "
     "The predicates of a frame (rectangular, cartesian, independent) say what is true of its axes, in whatever units these are.",
     ["inputs", "histories"], "all inputs to constructors, assignments and operators of the three frame classes, and all sequences of them",
     "The tests touch each operator once with one operand; class membership after a chain of operations and rejected input is not covered.",
     [L + "frame.py", L + "logical.py"],
     [("verification of axes", L + "frame.py RectangularFrame/CartesianFrame.__init__ and axes setter"),
      ("result types of operators", L + "frame.py __mul__, __imul__, ... __array_ufunc__")])

prop("C04", "Components of tensors transform by the tensor law between any two frames",
     "For vectors and tensors of any order, single or in a collection, the components shown in a target frame (or in no frame, meaning the ambient one, or through an explicit transformation matrix) are those given by the tensor transformation law applied to every index. "
     "The dual of a tensor represents the same quantity in the dual frame, transposition reverses the order of the tensorial indices only, and orienting a tensor rotates its components by the requested rotation. "
     "Every class of tensors dedicated to some order or dimension, and every arrangement of the collection, yields the same result as the general law. NumPy's allclose and isclose of two tensors compare the quantities, and components read by item, by iteration or as an array are the same.",
     ["inputs"], "all tensors of supported order, dimension and arrangement and all source and target frames with linearly independent axes",
     "Tests compare a few round trips between orthonormal frames for fixed shapes; each arrangement has its own kernel, and many wrong kernels pass round trips.",
     [L + "tensor.py", L + "vector.py", L + "tr.py", L + "utils.py"],
     [("transformation kernels", L + "tr.py _tr_tensors2, _tr_tensors4x3"), ("general einsum path with cached commands", L + "tensor.py Tensor.transform_components"),
      ("vectors", L + "utils.py show_vector")])

prop("C05", "Tensor arithmetic is independent of the frames of the operands",
     "The sum and difference of two tensors of the same kind, in place or not, represent the sum and difference of the two quantities even if the operands are given in different frames, and multiplication and division by a scalar and negation scale the quantity; in place addition and subtraction of a scalar shift every component. "
     "The result is of the class of the (left) operand and is given in the frame of the left operand, inplace forms change only the left operand and leave its frame alone, the other forms change neither of them. "
     "This holds for single tensors and collections and for an operand combined with itself.",
     ["inputs", "histories"], "all pairs of tensors of equal kind and shape, all frames, all scalars",
     "The tests add tensors in one or two frames; sign errors, wrong frames or aliasing for inplace forms and collections are not visible there.",
     [L + "abstract.py", L + "meta.py"],
     [("operators", L + "abstract.py AbstractTensor.__add__, __iadd__, __sub__, __isub__, __mul__, ..."), ("results of the same kind", L + "meta.py TensorLike._new_like")])

prop("C06", "Dot and cross products do not depend on the frames of the operands",
     "The dot product of vectors and second order tensors in any combination, the contraction of higher order tensors along chosen indices, and the cross product of vectors, or of a vector and (the columns of) a second order tensor, represent the products of the quantities, whatever frames the operands are given in; dot and cross products of collections are those of their items. "
     "If a target frame is requested, the result is given in that frame and represents the same quantity. "
     "For plain arrays the results are those of NumPy, and the operands are never changed.",
     ["inputs"], "all supported combinations of operands, operand frames, target frames and contraction indices",
     "Tests use identity or orthonormal frames, where forgetting the metric goes unnoticed.",
     [L + "utils.py", L + "abstract.py"],
     [("dot and cross", L + "utils.py dot, cross"), ("NumPy dispatch", L + "abstract.py __array_function__")])

prop("C07", "Copies and results are independent of what they were made of",
     "Arrays passed to frames, tensors and to the axes of a frame are copied, so changing them later has no effect, and constructing or operating on an object never changes the arrays passed in. "
     "A copy of a frame has its own axes and carries none of the tensors of the original; a copy of a tensor has its own components and stays attached to the frame of the original, a deep copy of a tensor has its own components and its own frame, and all of them represent what the original represents. "
     "Mutating a copy or an out-of-place result never changes what the original represents, and the other way round.",
     ["histories", "inputs"], "all objects, all ways of copying, all later mutations of either side",
     "Aliasing shows only when one side is mutated after the copy, which the tests do not do systematically.",
     [L + "meta.py", L + "frame.py", L + "tensor.py", L + "vector.py"],
     [("copying of input buffers", L + "meta.py ArrayWrapper.__init__"), ("copies", L + "meta.py TensorLike.__copy__/__deepcopy__, FrameLike.__deepcopy__"),
      ("copies of frames", L + "frame.py ReferenceFrame.copy/deepcopy")])

prop("C08", "Illegal tensor and frame operations raise and leave everything unchanged",
     "Operations that are not defined for tensors or frames (operands of the wrong kind or shape, collections of different length, arrays mixed with tensors in arithmetic, unsupported operators and NumPy functions, wrong shapes or missing frames at creation, illegal values of properties) raise an exception. "
     "They never return a value silently, and after the exception all frames, tensors and arrays involved are exactly as they were before.",
     ["inputs", "histories"], "all illegal combinations of operation and operands, at any point of a history",
     "Tests check the exception for a few combinations, but not that the state survives it.",
     [L + "abstract.py", L + "meta.py", L + "tensor.py", L + "frame.py", L + "utils.py"],
     [("type and shape guards", L + "abstract.py operators and __array_ufunc__/__array_function__"), ("constructor guards", L + "tensor.py _verify_input, __init__")])

prop("C09", "Rotation matrices are proper rotations that compose as requested",
     "A requested rotation (three successive body or space fixed rotations in any order of axes, a unit quaternion, a direction cosine matrix) yields an orthogonal matrix of determinant one, which is the product of the elementary rotations in the order requested, for every combination of angles, however large. "
     "Rotating a frame or a tensor by it and then by the inverse rotation restores the original.",
     ["inputs"], "all rotation types, orders and angles",
     "Tests use a handful of right angles.",
     [L + "utils.py", L + "frame.py", L + "vector.py"],
     [("rotation_matrix", L + "utils.py rotation_matrix"), ("orient", L + "frame.py ReferenceFrame.orient/rotate")])

prop("C10", "Matrix and vector kernels compute what their names say",
     "Determinants, adjugates and inverses of 2x2 and 3x3 matrices, single or stacked, symbolic or numeric, generalized (left, right) inverses, norms and normalization, permutation symbols and unit vectors agree with their mathematical definition for every input of admissible shape. "
     "Points along a segment or an interval are equidistant and include both ends, and matrices without an inverse of the requested kind are rejected. "
     "Inputs are never modified.",
     ["inputs"], "all float matrices and vectors of admissible shape, stacks of any size",
     "Tests evaluate one or two matrices per kernel, and some kernels not at all.",
     [L + "utils.py"],
     [("compiled kernels", L + "utils.py det2x2..inv3x3_bulk2, norm, normalize, linspace, vpath"), ("generalized inverses", L + "utils.py generalized_inverse")])

prop("C11", "Linear solvers return the solution, honouring prescribed unknowns",
     "For a system the chosen elimination does not find singular, the returned unknowns satisfy the equations for every right hand side, and all methods agree with each other. "
     "With prescribed unknowns, those take exactly the prescribed values, the remaining equations are satisfied, and the returned residual is what has to be added to the right hand side for the full system to hold, being zero at unknowns that are not prescribed. "
     "Singular systems are reported by an exception rather than a result, and the inputs are left alone unless inplace operation was asked for.",
     ["inputs"], "all matrices, numbers of right hand sides, and subsets and values of prescribed unknowns",
     "Tests solve one 3x3 system; subsets of prescribed unknowns (first, last, adjacent, all) and several right hand sides are not covered.",
     [L + "solve.py"],
     [("elimination", L + "solve.py _Jordan, _GaussJordan"), ("back substitution and residual", L + "solve.py backsub")])

prop("C12", "Compiled kernels are memory safe and independent of the thread schedule",
     "For every admissible input, including empty, single-item, large and non-contiguous arrays, the compiled functions never read or write outside the arrays they are given. "
     "Their results are the same for any number of threads, for repeated and for concurrent calls from several threads, and agree with the uncompiled execution of the same code. "
     "No call keeps its arguments alive, or memory allocated, beyond the life of its results, and no result loses memory it still uses.",
     ["inputs", "schedules", "configurations"], "all admissible inputs, numbers of threads, threading schedules and concurrent callers",
     "Tests run with one thread configuration, without bounds checking, on small inputs; races and overruns need not change the outcome of such runs.",
     [L + "tr.py", L + "utils.py", L + "solve.py", M + "utils.py", M + "arraysetops.py", M + "hist.py", M + "approx/mls.py", M + "approx/functions.py", M + "approx/ls.py", M + "graph/utils.py", L + "sparse/utils.py"],
     [("parallel loops writing disjoint slices", "all functions compiled with parallel=True"), ("index arithmetic", "all compiled functions")])

prop("C13", "Jagged arrays and CSR matrices hold and convert their rows faithfully",
     "A jagged array returns the rows it was built from, whatever form it was built from (lists, flattened data with row lengths, arrays), and its widths, size, shape, flattened form, jaggedness and stacked combinations are those of these rows; converting it to lists, dense, awkward, CSR or SciPy form loses nothing. "
     "A CSR matrix represents the same matrix as the input it was created from (dense, SciPy sparse of any format, awkward, raw CSR data), and the values and column indices of every row are the stored ones, in Python and in compiled code alike; its values are its own, so that later changes of the input are not seen; the lower and upper parts of coordinate data hold exactly the entries on and below, or on and above the diagonal.",
     ["inputs"], "all jagged row structures (empty rows, a single row, many rows), all matrices and all conversion paths",
     "Tests use a couple of fixed arrays without empty rows or out-of-order input.",
     [L + "sparse/jaggedarray.py", L + "sparse/csr.py", L + "sparse/utils.py"],
     [("construction and conversions", L + "sparse/jaggedarray.py JaggedArray, get_data"), ("CSR construction, row, irow and the compiled view", L + "sparse/csr.py")])

prop("C14", "Unique-value and row-matching searches are exact",
     "The unique values of a 2d integer array, dense or jagged, are sorted and complete, with the counts of occurrence, an inverse that reconstructs the array and indices that list every occurrence exactly once. "
     "Matching the rows of two arrays finds all pairs of equal rows (within the tolerance for floats) and nothing else, and looking up values in an array of distinct values returns the position of each of them.",
     ["inputs"], "all integer arrays (negative values, duplicates, any shape) and all pairs of arrays with equal number of columns",
     "Tests use a few tiny arrays.",
     [M + "arraysetops.py", M + "utils.py"],
     [("unique2d", M + "arraysetops.py"), ("indices_of_equal_rows, find1d, find2d", M + "utils.py")])

prop("C15", "Rooted level structures are breadth-first levels and peripheral search ends",
     "The rooted level structure of a graph assigns to level k exactly the nodes at distance k from the root, each node that can be reached appears exactly once and no other node appears, for every graph and root, and the search ends also for graphs with several components. "
     "The pseudo peripheral search ends for every graph and returns a node together with the whole last level of the level structure rooted at that node, and no node of that level yields a level structure that is longer, or equally long and narrower.",
     ["inputs"], "all undirected graphs, connected or not, with or without self loops, and all roots",
     "Tests check two small connected graphs.",
     [M + "graph/utils.py", M + "graph/graph.py"],
     [("level construction", M + "graph/utils.py rooted_level_structure"), ("peripheral search", M + "graph/utils.py pseudo_peripheral_nodes")])

prop("C16", "Nearest neighbours and neighbour averages match brute force",
     "The k nearest neighbours found for each query point are those an exhaustive search finds, in order of distance, with the right distances, honouring a limit on the distance (missing neighbours are marked and have infinite distance), in any dimension. "
     "The neighbour based approximator returns for each query the mean of the values at its k nearest neighbours within the distance limit (undefined where there is none), for scalar and array valued real data, integer or floating, and for any k, however often and for whatever queries it is called.",
     ["inputs"], "all sets of points and queries, numbers of neighbours, distance limits, and data shapes",
     "Tests run one grid and check shapes or a rough error.",
     [M + "knn.py", M + "approx/mls.py"],
     [("k_nearest_neighbours", M + "knn.py"), ("MLSApproximator", M + "approx/mls.py")])

prop("C17", "Least squares fits minimise the weighted error and reproduce polynomials",
     "The polynomial fitted by (weighted) least squares minimises the (weighted) sum of squared errors over all polynomials of the requested degree, so it reproduces every polynomial of that degree exactly, in one, two or three dimensions, for scalar and vector valued data. "
     "The derivatives returned with an unweighted fit are the derivatives of the fitted polynomial, up to the requested order, and results for several query points do not depend on each other.",
     ["inputs"], "all point sets that determine the polynomial, all data, weights, degrees, orders and query points",
     "Tests fit one data set and check a rough error.",
     [M + "approx/ls.py", M + "approx/ls_approx.py", M + "approx/ls_poly.py", M + "approx/ls_preproc.py"],
     [("moments and solution", M + "approx/ls_preproc.py, ls_approx.py"), ("polynomial bases", M + "approx/ls_poly.py")])

prop("C18", "Moving least squares and weight functions have consistent derivatives",
     "At every query point the moving least squares approximation takes the value of the weighted fit at that point with the weights centred there, reproduces polynomials of the requested degree together with their derivatives, and the first and second derivatives it returns are the derivatives of the value it returns. "
     "Every weight function is non-negative, is symmetric about its core, and returns gradients and Hessians that are the derivatives of its value (with respect to its core), vanishing with the value outside of a compact support.",
     ["inputs"], "all weight functions, supports, cores, point sets that determine the polynomial, degrees and query points",
     "Tests evaluate a few points, mostly without comparing the derivatives to anything.",
     [M + "approx/functions.py", M + "approx/ls.py", M + "approx/ls_approx.py"],
     [("weight functions", M + "approx/functions.py"), ("moving fit and derivatives", M + "approx/ls.py moving_least_squares, ls_approx.py")])

prop("C19", "Lagrange shape functions interpolate on any set of nodes",
     "The Lagrange shape functions generated for a set of distinct nodes are polynomials that take the value one at their own node and zero at all the others, and their sum is one everywhere. "
     "The derivatives generated with them are their derivatives, combining them with the values of a polynomial of matching degree at the nodes reproduces that polynomial, and symbolic and numeric forms agree.",
     ["inputs"], "all sets of two or more distinct nodes, node numbers and ranges, all evaluation points",
     "Tests check one or two node counts.",
     [M + "approx/lagrange.py"],
     [("generation", M + "approx/lagrange.py gen_Lagrange_1d, approx_Lagrange_1d")])

prop("C20", "Gauss quadrature integrates polynomials of the promised degree exactly",
     "Gauss points in one, two and three dimensions, with any number of points per direction, integrate every polynomial up to degree 2n-1 in each direction exactly over the biunit interval, square or cube; weights are positive and sum to its volume, and points lie inside. "
     "Points and weights are returned in matching order.",
     ["inputs"], "all numbers of points per direction, equal or different",
     "Tests compare against one tabulated case.",
     [M + "numint.py"],
     [("tensor products of 1d rules", M + "numint.py gauss_points, _gp2d, _gp3d")])

prop("C21", "Functions, gradients, Hessians and coefficients agree with the expression",
     "A function created from an expression, a string or a callable evaluates to the value of that expression at every point, single or given as several arrays, with the arguments in the order of its variables; its gradient and Hessian are the derivatives of that value in the same order. Variables that are not given are those of the expression in alphabetical order; if they are given, further symbols are parameters that can be given values later. "
     "Substituting values for variables, or expressions of the original variables, yields the restricted function or value, symbolic and callable forms agree, linearity is reported for the expressions that are linear, and the coefficients reported reassemble the expression. The predefined test functions have their published values, and the optimums they list are optimums.",
     ["inputs"], "all polynomial and smooth expressions in any number of variables, any order of variables, any evaluation points",
     "Tests evaluate a few expressions at one point.",
     [M + "function/function.py", M + "function/metafunction.py", M + "function/symutils.py", M + "function/functions.py", M + "function/testfunction.py"],
     [("Function", M + "function/function.py"), ("substitution and generation of callables", M + "function/metafunction.py, symutils.py")])

prop("C22", "Relations say exactly whether the stated relation holds at a point",
     "A relation created from text or from an expression and an operator is satisfied at a point exactly if the stated equality or inequality between its two sides holds there, strict and non-strict operators being distinguished, and the corresponding class (equality or inequality) is created. "
     "Without an operator the relation states that the expression is zero; unknown operators, text with more than one operator, and operators that do not fit the class asked for are rejected. Its LaTeX form shows the expression, the operator and zero.",
     ["inputs"], "all relations between polynomial expressions, all operators, all points including those on the boundary",
     "Tests check one or two relations away from the boundary.",
     [M + "function/relation.py"],
     [("parsing and dispatch", M + "function/relation.py Relation, Equality, InEquality")])

prop("C23", "Linear programs return a feasible optimum, or say why there is none",
     "For any linear objective and linear equality and inequality constraints over any named variables, each mentioning all or some of them, the solution returned is feasible and no feasible point has a better objective value, minimising or maximising as requested, and the reported value is the value of the objective at the solution. "
     "Infeasible and unbounded problems are reported as such. "
     "The outcome does not depend on the order in which variables, terms or constraints are given, and solving does not change the problem.",
     ["inputs"], "all linear programs, with any number and order of variables and constraints, with non-negative or free variables",
     "Tests solve a few textbook problems where orders coincide.",
     [M + "optimize/lp.py"],
     [("standard form and reordering of variables", M + "optimize/lp.py LinearProgrammingProblem")])

prop("C24", "Genetic optimisation reports a feasible champion that never gets worse",
     "The champion reported by the genetic algorithm is a point inside the requested ranges, its reported fitness is the objective at that point, and it is the best point evaluated so far; with elitism it never gets worse from one generation to the next, minimising or maximising. "
     "Genotypes always decode to points inside the ranges, on the grid set by the number of bits, with both ends included, the population keeps its size, survivors are the elite and winners of tournaments of three, and the champion never depends on previous runs with the same problem.",
     ["inputs", "histories"], "all objectives, ranges, bit lengths, population sizes, crossover and mutation settings, and numbers of generations",
     "Tests check that one function gets roughly optimised, with random outcome.",
     [M + "optimize/bga.py", M + "optimize/ga.py"],
     [("decoding, selection and elitism", M + "optimize/bga.py BinaryGeneticAlgorithm"), ("champion bookkeeping", M + "optimize/ga.py GeneticAlgorithm")])

prop("C25", "The optimiser's lifecycle state always tells what has happened",
     "During and after a genetic optimisation the state tells truthfully how many generations the solution took, how many objective evaluations were made for them, what the best point and its value are, and whether the run succeeded. "
     "A run ends for every setting, at the first generation where the champion has not changed for longer than allowed or the largest number of generations is reached, but not before the smallest number of generations, and the status tells which of these happened. "
     "If the objective raises, the exception reaches the caller and the state reports the failure; a reset or a new run behaves as if the object were new, whatever happened before.",
     ["histories", "fault_sequences"], "all sequences of solve, evolve and reset calls, with objectives that raise at any evaluation",
     "Tests do not inject failing objectives or reuse an optimiser after a failure.",
     [M + "optimize/ga.py", M + "optimize/state.py"],
     [("solve loop and state", M + "optimize/ga.py GeneticAlgorithm.solve/evolve/reset"), ("state model", M + "optimize/state.py")])

prop("C26", "Array utilities reshape, repeat, scale and bin without losing anything",
     "Utilities that raise the dimension of, flatten, repeat, tile or stack arrays return exactly the items of the input in the documented arrangement for inputs of any size and type, mapping between ranges is the affine map taking the ends of one range to the ends of the other, and clipping limits values to the interval. "
     "Histograms count every value in range once and report the centres of the bins.",
     ["inputs"], "all arrays of admissible shape and type, all ranges, all repetition counts",
     "Tests call each utility once, if at all.",
     [M + "utils.py", M + "hist.py"],
     [("array utilities", M + "utils.py"), ("histogram", M + "hist.py")])

prop("C27", "Predicates on arrays and matrices answer truthfully",
     "Predicates on matrices (symmetry, definiteness, full row, column or full rank, rectangular, normal and orthonormal frames, independence) and on arrays (type, dimension) answer yes exactly if the property holds, for inputs that are clear of the tolerance. "
     "Closeness of arrays is decided element by element with the documented absolute and relative criteria, including at the limits of the tolerances, and invalid tolerances are rejected.",
     ["inputs"], "all matrices and arrays, all tolerances",
     "Tests check a positive and maybe a negative example per predicate.",
     [M + "logical.py", L + "logical.py"],
     [("predicates", M + "logical.py, " + L + "logical.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
