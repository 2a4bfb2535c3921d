#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
M="include/malg/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":[M+f for f in files],"mechanism":[{"name":n,"where":M+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":M+w} for n,m,w in state]
    a["observe_at"]=obs or ["return values, thrown exceptions and operand contents of the public calls"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Vectors are independent values over every operation history",
 "After any sequence of constructions, copies, moves, assignments (also from other element types), resizes and element writes, every vector holds exactly the size and elements a plain independent sequence would hold. Resizing keeps the common prefix and makes new elements zero; a moved-from vector can be read, assigned, resized and destroyed. No step touches memory it does not own, and nothing leaks.",
 ["histories","inputs"],"every operation sequence over several live vectors, all sizes including 0 and grow/shrink/regrow patterns",
 "The tests build vectors once from literals; no test copies, moves, shrinks then regrows, or self-assigns, and test_memory only prints.",
 ["vector.hpp"],[("allocate/deallocate","vector.hpp"),("copy/move members","vector.hpp")],
 [("_data/_size","owned heap block and its element count","vector.hpp")])
p("C02","Matrices are independent values over every operation history",
 "After any sequence of constructions, copies, moves, assignments (from matrices, other element types, nested lists, views, views of the destination itself, and empty matrices), reshapes, resizes and element writes, each matrix has exactly the shape and elements of an independent row/column table. Reshape keeps the linear order and rejects a different element count without change; a shape whose number of elements cannot be represented is rejected; resize keeps the common top-left block and zero-fills the rest; a moved-from matrix is empty and reusable. No step touches memory it does not own, and nothing leaks.",
 ["histories","inputs"],"every operation sequence over several live matrices, all shapes including empty ones",
 "test_memory resizes three literals and prints; no test checks contents after resize, aliasing assignment, move or reshape.",
 ["matrix.hpp","matrix_base.hpp","vector.hpp"],[("assignment/resize/reshape","matrix.hpp")],
 [("_rows/_cols/_data","shape and owned storage","matrix.hpp")])
p("C03","Views address exactly the elements of their window",
 "A rectangular view (also a row or column view, a view of a view, or a view of a constant matrix) and a row/column-excluding view report the window's shape and emptiness, read and write exactly the corresponding elements of the underlying matrix by row/column and by linear position, and clamp an end bound past the matrix. A view follows its matrix: it shows the elements at its window whatever the matrix was assigned or resized to since, as long as the window fits. Writing or assigning through a view changes nothing outside its window, and a view works as a matrix operand with the same result as a copy of its window; an assignment of the wrong shape changes nothing (source and destination windows that overlap partially are excluded).",
 ["inputs","histories"],"all matrix shapes, all windows with start inside the matrix and any end, all nestings, all excluded row/column pairs, square or not",
 "test_view reads three fixed windows of one matrix; it never writes, nests, clamps, uses linear access or the excluding view.",
 ["view.hpp","matrix.hpp","utility.hpp","matrix_base.hpp"],[("View::at/operator[]/rows/cols","view.hpp"),("CofactorView::at/operator[]","view.hpp"),("row/col/view","utility.hpp")])
p("C04","Element-wise arithmetic is exact, mixed-type safe and side-effect free",
 "Adding, subtracting, scaling and dividing matrices and vectors (by one another where defined, or by a scalar on the defined side), the element-wise product, linear combinations and element-wise mappings (absolute value, real and imaginary part, sign, user functions) give at each position the scalar operation on the operands there, in the common element type without narrowing either operand. The operands are unchanged by the out-of-place forms, the sign of zero counts as negative, and the in-place forms leave in the left operand what the out-of-place form returns, also when both operands are the same object.",
 ["inputs","programs"],"all shapes, all element contents over the alphabet, all operand kinds (matrix, view, constant view, excluding view) and element-type pairs",
 "test_math adds, subtracts one fixed square pair per type; no in-place, scalar, mixed-type, vector or mapping operation is checked.",
 ["math.hpp","complex_math.hpp","type_traits.hpp"],[("operators and element_wise_*","math.hpp"),("extract_common_type","type_traits.hpp")])
p("C05","Matrix and vector products are exact",
 "The product of two conformable matrices, of a matrix and a vector, the dot product, the projection of floating-point vectors and non-negative integer matrix powers equal the sums of products of the mathematical definition, for every shape including empty inner dimensions and for mixed element types. In-place multiplication by a square matrix of matching size leaves the same product in the left operand, also when both operands are the same object or one is a view.",
 ["inputs","programs"],"all conformable shape triples and operand kinds, contents over the alphabet",
 "test_math multiplies one fixed 5x5-like pair per type; rectangular, aliasing, matrix-vector and power cases are never checked.",
 ["math.hpp","linalg.hpp"],[("operator*, operator*=, dot","math.hpp"),("powm","linalg.hpp")])
p("C06","Incompatible shapes and indices are rejected without effect",
 "Every operation that combines two operands, or that takes a row, column or range position where the library validates one, raises an error when the shapes or positions do not fit its definition (for assignment through a view, an assertion), and never reads or writes outside its operands. After such a rejection all operands are unchanged, and operands that do fit are never rejected.",
 ["inputs"],"all pairs of operand shapes up to the bound for every binary operation, all positions in and out of range",
 "No existing test passes an incompatible shape to anything.",
 ["math.hpp","utility.hpp","linalg.hpp","control/control.hpp","matrix.hpp"],[("size checks at function entry","math.hpp"),("range checks","utility.hpp")])
p("C07","Comparisons follow scalar comparison with the configured tolerance",
 "Comparing matrices, vectors or either with a scalar yields a same-shaped boolean result holding the scalar comparison at each position: for real and complex floating types equality is relative equality within the configured tolerance, otherwise exact; inequality is always the negation of equality. The scalar tolerance predicates are reflexive for finite values, symmetric, follow the one tolerance of the program in force at the time of the call, and the close-to test accepts exactly the pairs whose every element differs by at most the given tolerance (never a NaN).",
 ["inputs","configurations"],"all shapes, contents placed around the tolerance boundary and of either sign, all tolerances of the menu, mixed element types",
 "Tests only use equality as an oracle on values that should be equal, with one tolerance per test.",
 ["math.hpp","feq.hpp","utility.hpp"],[("approximately_equal and friends","feq.hpp"),("comparison operators","math.hpp"),("all_close","utility.hpp")],
 [("tolerance","process-wide relative tolerance","feq.hpp")])
p("C08","Structural predicates decide exactly their definition",
 "The predicates square, row/column vector, symmetric, skew-symmetric, diagonal, zero, constant, identity, orthogonal, invertible, linearly dependent/independent, and upper/lower triangular answer true exactly for the matrices that meet the textbook definition (orthogonality for real matrices; dependence and invertibility as far as rounding can tell), for matrices, views and constant views alike.",
 ["inputs"],"all matrices of small shape over a small alphabet (exhaustively), including non-square and single-element-deviation larger ones",
 "No existing test calls any of these predicates.",
 ["utility.hpp"],[("is_* predicates","utility.hpp")])
p("C09","Determinants are correct for every square matrix",
 "The determinant of a square matrix of any size equals the mathematical determinant (exactly for integers, to rounding for floating and complex types), is zero to rounding for singular matrices, and is the same for a matrix and a view of it. A non-square matrix is rejected and the input is never modified.",
 ["inputs"],"all square matrices up to the size bound built from the entry/row alphabets, including singular ones and ones needing row exchanges",
 "Only reached through one 5x5 system in test_control and three fixed inverses; no test has a singular matrix, a zero pivot, or an integer matrix of size five or more.",
 ["linalg.hpp","feq.hpp","utility.hpp"],[("closed forms up to 4x4, elimination above","linalg.hpp")])
p("C10","Adjoint, inverse and matrix division satisfy their defining equations",
 "For every square matrix the adjoint times the matrix is the determinant times the identity; for every non-singular matrix the inverse multiplied on either side gives the identity, and dividing by it equals multiplying by the inverse. A singular matrix yields an empty inverse with a diagnostic (dividing by it an exception or an empty result), a non-square one is rejected, and the operands are unchanged.",
 ["inputs"],"all square matrices up to the size bound over the entry/row alphabets, element types int, double and complex, all operand kinds",
 "test_math divides one well-conditioned pair per type; singular, 1x1, larger and view inputs are untested.",
 ["linalg.hpp","view.hpp"],[("adjoint/inverse/div via row/column-excluding views","linalg.hpp")])
p("C11","LU factors reproduce the matrix",
 "For every square real or complex matrix whose leading principal minors are non-zero, the returned pair is a lower-triangular matrix and a unit upper-triangular matrix whose product is the input. A non-square matrix is rejected and the input is unchanged.",
 ["inputs"],"all square matrices up to the size bound over the alphabets with non-zero leading minors, real and complex",
 "No existing test calls it.",["linalg.hpp"],[("lu_decomposition","linalg.hpp")])
p("C12","QR factors reproduce the matrix with an orthogonal Q",
 "For every non-empty real matrix with at least as many rows as columns, including rank-deficient and zero ones, the returned pair is a square orthogonal matrix and an upper-triangular matrix of the input's shape whose product is the input. The input is unchanged.",
 ["inputs"],"all matrices up to the shape bound over the alphabets, including zero columns and negative leading entries",
 "No existing test calls it (it did not even compile when instantiated at the pinned commit).",
 ["linalg.hpp","utility.hpp","view.hpp"],[("Householder loop","linalg.hpp")])
p("C13","Linear systems are solved in the least-squares / minimum-norm sense",
 "For a non-singular real square system the returned vector satisfies the equations; for a full-column-rank overdetermined one it is the least-squares solution (residual orthogonal to the columns); for a full-row-rank underdetermined one it satisfies the equations with minimum norm, each to the accuracy that rounding and the conditioning of the matrix itself allow. The inputs are unchanged.",
 ["inputs"],"all full-rank systems up to the shape bound over the alphabets, every shape class",
 "No existing test calls it (it did not even compile when instantiated at the pinned commit).",
 ["linalg.hpp"],[("solve","linalg.hpp")])
p("C14","Stacking, extraction, removal and rearrangement move elements exactly",
 "Stacking or concatenating places both operands' elements unchanged at their block positions in the common type; extracting a block, row, column or diagonal returns exactly that part; removing or swapping rows/columns (also over a partial range) permutes or drops exactly those elements; and conversions between vectors and matrices keep the linear order. Inputs taken by value or constant reference are unchanged.",
 ["inputs","histories"],"all shapes up to the bound with distinct element labels, all positions and ranges (end bounds past the matrix included), all operand kinds, short compositions such as stack-then-extract",
 "test_utility stacks 2x2 pairs and converts one 4-vector; ranges, removal, swapping, mixed types, non-square shapes are untested.",
 ["utility.hpp","matrix.hpp"],[("vstack/hstack/extract*/remove_*/swap_*/diag/to_matrix/ravel","utility.hpp")])
p("C15","Transposition, conjugation and minors are exact",
 "The transpose puts element (i,j) at (j,i) and the conjugate/Hermitian transposes also conjugate it, so that applying one twice restores the input and the transpose of a product is the reversed product of transposes; the (p,q) minor is the input without row p and column q. The input is never modified.",
 ["inputs"],"all shapes up to the bound with distinct labels, real and complex, all operand kinds, all (p,q)",
 "No existing test checks any of these.",
 ["linalg.hpp"],[("transpose/hermitian_transpose/conjugate_transpose/cofactor","linalg.hpp")])
p("C16","Search and ordering results are exact",
 "Finding the non-zero elements returns their linear positions in increasing order, optionally only the first or last n, as a row for a row vector and otherwise as a column; minimum/maximum return an extreme value and its first position (per column for matrices); all/any quantify over the elements; three-way comparison is zero for equal operands and otherwise has the sign of the first differing element, with the magnitude its position counted from one.",
 ["inputs"],"all matrices/vectors of small shape over a small alphabet exhaustively, all n and directions",
 "test_find checks one full find; limits, directions, ties, empties, comparison and extremes are untested.",
 ["utility.hpp","math.hpp"],[("find/flatnonzero/compare","utility.hpp"),("min/max/all/any","math.hpp")])
p("C17","Reductions and norms equal their definitions",
 "Sum, trace, Frobenius/Euclidean norm, column length over a row range, infinity norm (largest absolute row sum for matrices), sub-diagonal norm, and the power-of-two scaling factor (floating and complex types) that brings the infinity norm to at most one equal their mathematical definition for real and complex, square and rectangular, empty and non-empty operands, and agree between a view and a copy of it.",
 ["inputs"],"all shapes up to the bound and contents over the alphabets, all operand kinds, all row ranges",
 "Only exercised indirectly through the exponential of a few fixed matrices; complex norms did not compile at the pinned commit.",
 ["math.hpp","utility.hpp"],[("norm and reduction loops","math.hpp")])
p("C18","Written files read back to the same vectors and matrices",
 "Writing any sequence of vectors and matrices to a file with enough digits and reading them back in order restores every shape and every finite element exactly, whatever shape and contents the receiving objects had before. Reading leaves the stream usable for the next object.",
 ["inputs","histories"],"all shapes including empty, element contents over an alphabet of signs/magnitudes/precisions, real/integer/complex types, views as sources, all receiver states, sequences of objects in one file",
 "test_read_write_file writes one random 5-vector and one random 5x5 matrix into fresh objects.",
 ["io.hpp"],[("file stream operators","io.hpp")])
p("C19","Damaged files are detected and never corrupt memory",
 "Reading a vector or matrix from a file cut at any byte before its last element, with any token replaced by another, or from a file holding the other kind of object or no object, never touches memory outside the receiving object and never runs away; a cut file is reported through the stream's failure state and the receiver stays a valid object, and a wrong kind leaves the receiver unchanged.",
 ["crash_points","inputs"],"every byte-prefix of every written file of the alphabet (all crash points of the writer), every single-token replacement by a non-number, every receiver state",
 "No test reads anything but an intact file.",
 ["io.hpp","vector.hpp"],[("header parsing","io.hpp")])
p("C20","Text renderings denote the object printed",
 "The console form and the named dumps of a vector or matrix list every element once in row order with rows on separate lines and equal field widths, and the MATLAB and C++ forms, at any precision of the stream, parse under the target's syntax to the same shape and values, for real and complex elements, negative values and views. Rendering does not change the stream's formatting state for later output beyond the documented text.",
 ["inputs"],"all shapes up to the bound, contents over an alphabet of signs/widths, all operand kinds",
 "No test looks at rendered text; test_complex and test_memory only print.",
 ["io.hpp"],[("operator<<, dump_*, to_matlab, to_cpp","io.hpp")])
p("C21","The matrix exponential is accurate",
 "For every square floating or complex matrix and positive accuracy the matrix exponential equals the true exponential to about the requested accuracy relative to its size and conditioning, for small and large norms, zero, nilpotent, singular, defective and diagonal matrices, views included, and it terminates. The element-wise exponential applies the scalar exponential at each position's own place.",
 ["inputs"],"all matrices up to the shape bound over entry alphabets and power-of-two scalings, accuracies of the menu, compared with an independent high-precision reference",
 "Five fixed dense matrices; the test program even ignores that result.",
 ["linalg.hpp","math.hpp"],[("scaling and squaring power series","linalg.hpp"),("log2_ceil","math.hpp")])
p("C22","Discretisation is the exact zero-order hold",
 "Discretising a continuous-time model with an invertible system matrix yields the model whose step equals (to the accuracy of the exponential, 1e-5) the exact solution of the continuous model over one sample time with the input held constant, keeps the output matrices, and records the sample time. Stepping the model for T twice equals stepping the model for 2T once under the same input; a singular system matrix is rejected or handled correctly.",
 ["inputs"],"all models up to the order bound over the alphabets, sample times of the menu, against an independent high-precision reference",
 "One fixed fifth-order model at one sample time.",
 ["control/control.hpp","linalg.hpp"],[("c2d","control/control.hpp")])
p("C23","Discrete simulation follows the state equations",
 "Simulating a discrete model yields exactly min(number of inputs, whole samples in the simulated time) steps (none for a negative time); each state and output equals the state equations applied to the previous state and that step's input; the state list starts with the initial state and is one longer than the outputs, and the time list gives the time of every state. Splitting a simulation at any step and continuing from the reached state gives the same trajectory, and the model and inputs are unchanged.",
 ["histories","inputs"],"all input sequences up to the horizon over an input alphabet, all models of a menu, all initial states, durations and split points",
 "No existing test simulates anything.",
 ["control/control.hpp"],[("simulate/simulate_step","control/control.hpp")])
p("C24","Controllability and observability matrices have their block definition",
 "The controllability matrix is the blocks B, AB, ... A^(n-1)B side by side and the observability matrix is the blocks C, CA, ... CA^(n-1) on top of each other, so that one is the transpose of the other for the transposed model. Any mismatch of shapes is rejected, and the inputs are unchanged.",
 ["inputs"],"all models up to the order bound over the alphabets, any number of inputs/outputs, all mismatching shapes",
 "Controllability is reached only through one pole placement; observability did not compile at the pinned commit.",
 ["control/control.hpp"],[("ctrb/obsv","control/control.hpp")])
p("C25","Polynomials from roots and matrices are exact",
 "The polynomial of a vector (or row/column matrix) is the monic polynomial with exactly those roots, and that of a square matrix is its characteristic polynomial, so that the matrix satisfies it and its last coefficient is the signed determinant; an empty matrix gives 1 and a non-square, non-vector matrix is rejected. Reducing a polynomial removes exactly its leading zeros, leaving a single zero for the zero polynomial.",
 ["inputs"],"all root multisets and matrices up to the size bound over the alphabets, integer/real/complex types, all zero patterns",
 "Five fixed root vectors; the matrix form and the all-zero/empty reductions are untested.",
 ["control/control.hpp","math.hpp"],[("poly (both forms), polyreduce","control/control.hpp")])
p("C26","Pole placement achieves the requested poles",
 "For every controllable single-input model and any requested set of as many poles as states, the returned gain K makes the characteristic polynomial of A - B*K the polynomial of the requested poles. An uncontrollable model, non-conformal matrices, or a wrong number or shape of poles ends in the documented rejection (a message and exit, or an exception) and never in a gain, and the inputs are unchanged.",
 ["inputs"],"all models and pole sets up to the order bound over the alphabets, controllable and uncontrollable",
 "One fixed fifth-order model.",
 ["control/control.hpp","linalg.hpp"],[("acker","control/control.hpp")])
p("C27","Generators produce the documented contents",
 "Evenly and logarithmically spaced sequences have the requested length, start and end at the requested values (one-point sequences give the end), are equally spaced to rounding in either direction and never leave the range (integer types: when the spacing is whole); constant, identity and diagonal generators produce exactly the documented elements for every shape and reject zero sizes; iterator-range sums, inner products and factorials equal their definition.",
 ["inputs"],"all lengths up to the bound, all endpoint pairs of the alphabet in either order or equal, all element types, all shapes",
 "Two five-point increasing linspace calls.",
 ["utility.hpp"],[("linspace/logspace/eye/zeros/ones/identity","utility.hpp")])
p("C28","Random generators respect shape and range for every seed",
 "A random matrix or vector has the requested shape and every element (both parts of a complex one) lies within the requested bounds that the element type can represent, whatever the entropy source returns; integer draws can reach both bounds, and elements are drawn independently rather than repeated.",
 ["inputs","configurations"],"every seed of a contiguous range supplied through a controlled entropy source, all shapes up to the bound, all bounds and types of the menu",
 "The tests draw from an uncontrolled entropy source and only use the values as data.",
 ["utility.hpp"],[("rand_matrix/rand_vector","utility.hpp")])
p("C29","Mixed-precision complex arithmetic is exact",
 "Adding, subtracting, multiplying and dividing complex numbers of different precisions, or a complex number of floating type and a real or integer number in either order, gives the mathematical result in the wider type, and leaves the operands unchanged.",
 ["inputs","programs"],"all operand pairs over the alphabet for all type pairs, both orders, four operators",
 "test_complex prints a few such results and checks none.",
 ["complex_math.hpp"],[("global complex operators","complex_math.hpp")])
p("C30","Schur and eigenvector computations satisfy their equations",
 "For every square double-precision complex matrix the Hessenberg and Schur computations return a unitary P and a transformed H with P*H*P^-1 equal to the input to rounding, H being Hessenberg, respectively upper triangular unless non-convergence is reported; Givens factorisation of a Hessenberg matrix returns unitary Q and upper-triangular R with Q*R the input. The eigenvectors of an upper-triangular matrix satisfy T*v = lambda*v with unit length, or are zero with the incompleteness reported.",
 ["inputs"],"all complex matrices up to the order bound over the alphabets, including repeated eigenvalues, zero columns and defective matrices",
 "No target even instantiates this header; it did not compile when instantiated at the pinned commit.",
 ["eigen.hpp","math.hpp","utility.hpp"],[("hessenberg/QRHessenberg/qr_factorise_givens/eigenvectorUpper","eigen.hpp")])
p("C31","Concurrent use of separate or read-shared objects is safe",
 "Threads that work on their own objects, or only read shared ones, obtain exactly the results they would obtain alone, under every interleaving. No library operation accesses hidden state shared between threads without synchronisation.",
 ["schedules"],"all interleavings, at the granularity of single memory accesses, of two and three threads running the operations of a menu of 98, on the same and on different operands, up to the preemption bound",
 "All tests are single-threaded.",
 ["linalg.hpp","math.hpp","utility.hpp","control/control.hpp"],[("no shared scratch state; only the tolerance setting is process-wide","feq.hpp")])
p("C32","Allocation failure surfaces as an error and damages nothing",
 "When memory runs out at any allocation of any container operation or computation, the operation ends in an exception; no invalid memory is touched, nothing leaks or is freed twice, and every object involved can still be read, assigned and destroyed, with operands passed as constant unchanged.",
 ["fault_sequences"],"failure injected at every single allocation, from every allocation on, and at every pair of allocations of each operation of the menu; every allocation of each object-changing operation after each other one",
 "No test injects a fault.",
 ["vector.hpp","matrix.hpp","io.hpp"],[("allocate","vector.hpp")])
p("C33","Results do not depend on the storage-order option",
 "Building the library for row-major or column-major storage changes only linear positions: every operation gives the same elements at the same (row, column), the same scalars, the same rejections and the same text in both builds.",
 ["configurations","inputs","histories"],"both storage orders, operation histories and inputs of the menu",
 "The tests are built with row-major storage only.",
 ["matrix_base.hpp","matrix.hpp","view.hpp","utility.hpp","linalg.hpp"],[("ROW_MAJOR index arithmetic","matrix.hpp")])
p("C34","Results depend only on the arguments, not on earlier calls",
 "Any operation gives the same result, bit for bit, as in a fresh process, whatever other operations (with other shapes, values, element types, failures) ran before it in the same process, except through the explicitly configured tolerance. Objects not passed to a call are never changed by it.",
 ["histories"],"all sequences of operations from the menu up to the depth bound, including rejected ones",
 "Each test program runs one fixed sequence once.",
 ["linalg.hpp","math.hpp","utility.hpp","control/control.hpp","feq.hpp"],[("absence of retained state","linalg.hpp")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
