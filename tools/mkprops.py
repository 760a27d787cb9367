#!/usr/bin/env python3
# Writes /verif/properties.jsonl; the text of the properties lives here.
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=['include/malg/' + f for f in files], mechanism=[dict(name=n, where='include/malg/' + w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = state
    d['anchors']['hook_needed'] = None
    P.append(d)

prop('C01', 'A vector holds exactly what its history of operations put in it',
  'After any sequence of constructions, copies, moves, assignments (also across element types), element writes, resizes and iterations, a vector has exactly the size and elements that the same sequence gives a plain list: retained elements survive a resize, new ones are zero, copies are independent, and a moved-from vector is empty and reusable. No sequence reads or writes outside the storage, frees twice, or leaks.',
  ['histories', 'inputs'], 'all histories of vector operations over several live vectors, element types int, float, double, complex, bool',
  'The memory test performs one short fixed sequence and prints; nothing compares the contents after resizes, moves and cross-type assignments, or watches for invalid accesses.',
  ['vector.hpp'], [('allocate/deallocate', 'vector.hpp'), ('copy and move members', 'vector.hpp')], ['Vector API', 'AddressSanitizer'],
  [dict(name='data/size', meaning='owned buffer and its length', where='include/malg/vector.hpp')])
prop('C02', 'A matrix holds exactly what its history of operations put in it',
  'After any sequence of constructions, copies, moves, assignments (same type, other element type, from any view including views of itself, empty ones included, initializer lists), element writes, reshape, resize, and row or column removals, a matrix has exactly the shape and the elements at each (row, column) that a plain table under the same sequence has; resize keeps the common part and zero-fills the rest, reshape keeps the storage order. Copies are independent, a moved-from matrix is empty and reusable, iteration visits every element once in storage order, and rejected operations leave everything unchanged.',
  ['histories', 'inputs'], 'all histories of matrix operations over several live matrices of all shapes, in both storage orders',
  'The tests resize and remove rows or columns of one or two small matrices once each; no test chains operations, assigns empties or views of itself, or uses moved-from objects.',
  ['matrix.hpp', 'matrix_base.hpp', 'utility.hpp'], [('assignments', 'matrix.hpp'), ('resize/reshape', 'matrix.hpp'), ('remove_row/remove_column', 'utility.hpp')], ['Matrix API', 'AddressSanitizer'])
prop('C03', 'Views alias exactly the elements they select',
  'A view (range, row, column, cofactor, or a view of any of these, mutable or constant) has the shape its ranges select after clipping to the matrix (no elements when a range starts beyond it; a cofactor view hides its row and column when the matrix has them), every element of it read by (row, column) or linearly in storage order is the corresponding element of the viewed matrix at that moment, and writing through it or assigning to it (also from an overlapping part of the same matrix) changes exactly those elements and nothing else. It reports its size and emptiness consistently with that shape, and its contents follow later changes of the matrix.',
  ['inputs', 'histories'], 'all matrices, ranges, excluded rows and columns, nestings of views, and interleavings of writes through the matrix and through several views',
  'The view test uses one fixed square matrix and a few fixed ranges.',
  ['view.hpp', 'utility.hpp', 'matrix.hpp'], [('View', 'view.hpp'), ('CofactorView', 'view.hpp'), ('Matrix::operator()(Range, Range)', 'view.hpp'), ('view/row/col helpers', 'utility.hpp')])
prop('C04', 'Element-wise arithmetic is exact element by element',
  'Sum, difference, product and quotient between matrices, vectors and scalars (matrix with matrix or scalar, vector with vector or scalar, scalar with matrix or vector, and every in-place form) give at each position the scalar operation on the two elements converted to the common type, in a result of the shape of the operands whose element type is that common type. The operands of the non in-place forms never change, and the in-place forms change their left operand only, also when both operands are the same object or the scalar is one of its elements.',
  ['inputs'], 'all shapes, values, element type combinations and operand forms (matrix, view, constant view, cofactor view)',
  'The tests add and multiply a few small constants of equal type and do not cover most of the mixed-type, in-place or view forms.',
  ['math.hpp', 'complex_math.hpp', 'type_traits.hpp'], [('operators + - * / and their in-place forms', 'math.hpp'), ('extract_common_type_t', 'type_traits.hpp')])
prop('C05', 'Products of matrices and vectors are the mathematical products',
  'The product of two matrices, the in-place product, the product and dot product of a matrix and a vector, the dot product of vectors, and integer powers of a square matrix equal the textbook sums: exactly when every intermediate value is representable, and within the rounding bound of a sum of that length otherwise. They satisfy the laws of the algebra (identity, zero, associativity, distributivity, transpose of a product), never modify their operands, and are right when both operands are the same object.',
  ['inputs'], 'all conforming shapes, values, element type combinations and operand forms; powers from 0 up',
  'The tests multiply two or three fixed small matrices.',
  ['math.hpp', 'linalg.hpp'], [('operator*, operator*=', 'math.hpp'), ('dot', 'math.hpp'), ('powm', 'linalg.hpp')])
prop('C06', 'Comparisons decide each element by the documented tolerance',
  'Equality and inequality between matrices, vectors and scalars compare floating point elements up to the current relative tolerance (difference not above tolerance times the larger magnitude, infinities only equal to themselves, real and imaginary parts separately for complex values) and other elements exactly, the orderings compare each pair of elements, inequality is the exact opposite of equality, and the approximate scalar comparisons agree with the same rule, and all of them follow a change of the tolerance made anywhere in the program. Closeness of two arrays holds exactly when every difference is at most the given absolute tolerance (never with NaN), and all and any tell whether every, or some, element is non-zero.',
  ['inputs', 'configurations'], 'all finite values including near-tolerance pairs and zeros, shapes, element types, operand forms, and tolerance settings',
  'The tests compare a handful of equal or clearly different constants under the default tolerance.',
  ['math.hpp', 'feq.hpp', 'utility.hpp'], [('comparison operators, all, any', 'math.hpp'), ('approximately_*', 'feq.hpp'), ('all_close', 'utility.hpp')])
prop('C07', 'Mixed complex arithmetic agrees with complex arithmetic in the common type',
  'Adding, subtracting, multiplying or dividing two complex numbers of different precision, or a complex and a real number in either order, gives the value of that operation on both operands converted to the complex type of the common precision, and a result of that type. The operands are not modified.',
  ['inputs'], 'all pairs of finite values over float, double and integer operands, in both orders',
  'The complex test prints a few sums without checking them.',
  ['complex_math.hpp'], [('mixed complex operators', 'complex_math.hpp')])
prop('C08', 'Reductions and norms return the value their definition gives',
  'Sum, trace, minimum and maximum of a vector (first position that attains it) and of each column of a matrix, Euclidean length, Frobenius norm, infinity norms, length of a part of a column, norm of the part strictly below the diagonal, inner product and accumulation over ranges, and the power-of-two scaling that brings the norm to at most one all equal their definitions for every input, exactly for values whose arithmetic is exact and within rounding otherwise. Empty operands give zero (or an empty result), and norms obey zero-only-at-zero, scaling and the triangle inequality.',
  ['inputs'], 'all shapes including empty, rectangular, single row or column, values including negative ones and ties, element types and operand forms',
  'The tests check two or three norms and sums of fixed small inputs.',
  ['math.hpp', 'utility.hpp'], [('sum/trace/min/max/norms/log2_ceil', 'math.hpp'), ('inner_product/accumulate', 'utility.hpp')])
prop('C09', 'Element-wise functions map every element and nothing else',
  'Applying a function to the elements of one or two matrices or vectors returns the value of the function at every position, for any function, in an array of the same shape, and calls it once per position; real and imaginary parts, absolute value, sign (+1 above zero and -1 otherwise, per component for complex values), element-wise exponential, element-wise product, linear combination and vector projection agree with their per-element definitions. Operands never change.',
  ['inputs', 'programs'], 'all shapes, values, element types and functions, including stateful ones and ones returning another type',
  'No test checks the result of these functions.',
  ['math.hpp', 'linalg.hpp'], [('element_wise_function, element_wise_binary_function', 'math.hpp'), ('real/imag/abs/sign/projection/linear_combination/element_wise_product', 'math.hpp'), ('exp', 'linalg.hpp')])
prop('C10', 'Structural operations move each element to its documented place',
  'Transpose, conjugate and Hermitian transpose, vertical and horizontal stacking of matrices and vectors, concatenation, extraction of blocks, rows and columns (end clipped to the matrix), diagonals, vector/matrix conversions, flattening, row and column swaps (whole or over a range), row and column removal and cofactor extraction place each input element exactly where the definition says, in a result of the right shape and common element type, and lose or invent no element. Transposition, swapping and stack-then-extract are their own inverses, and only the swaps and removals change their argument.',
  ['inputs'], 'all shapes, index ranges, values, element types and operand forms',
  'The tests apply each operation to one small fixed matrix.',
  ['linalg.hpp', 'utility.hpp'], [('transpose, cofactor', 'linalg.hpp'), ('vstack/hstack/concatenate/extract*/diag/swap_*/remove_*/to_matrix/to_vector/ravel', 'utility.hpp')])
prop('C11', 'Matrix predicates answer exactly their definition',
  'Square, row vector, column vector, symmetric, skew-symmetric, diagonal, lower and upper triangular, all-zero, constant, identity, orthogonal (up to the tolerance), invertible and linearly (in)dependent are reported true for precisely the matrices that satisfy the definition, whichever single element violates it. Independent and dependent are opposites, and invertible means independent, on every square matrix.',
  ['inputs'], 'all shapes, matrices having the property and single-element perturbations of them, element types, operand forms',
  'The tests call almost none of the predicates.',
  ['utility.hpp'], [('is_* predicates', 'utility.hpp')])
prop('C12', 'Searches return exactly the non-zero positions and the first difference',
  'The flat search returns the storage-order positions of exactly the non-zero elements in increasing order; the bounded search returns the first or the last n of them (all when there are fewer), as a row when the input is a row and as a column otherwise, and an empty matrix for n zero. Comparing two equally sized arrays returns the position of the first differing element, negative when the first array is smaller there and positive when it is larger, and zero when they are the same.',
  ['inputs'], 'all shapes, sparsity patterns, bounds n, both directions, values, element types',
  'The find test uses a few fixed matrices and never limits the number of results; comparison is not tested.',
  ['utility.hpp'], [('flatnonzero/find/compare', 'utility.hpp')])
prop('C13', 'Determinant, adjugate, inverse and division are mutually consistent and correct',
  'For every square matrix the determinant equals the exact determinant up to the rounding of the elimination (exactly for integer matrices up to 4x4, zero for real matrices with a zero row or two equal rows), the adjugate times the matrix is the determinant times the identity, and for every well-conditioned matrix the inverse times the matrix is the identity and dividing by a matrix undoes multiplying by it. The determinant is multiplicative, invariant under transposition and changes sign under a row swap; a matrix with zero determinant has an empty inverse.',
  ['inputs'], 'all square matrices of sizes 1 to 12, including ones with zero, tiny or badly ordered pivots, real and complex, all operand forms',
  'The tests compute the determinant and inverse of fixed 2x2 to 6x6 matrices whose pivots need no exchange.',
  ['linalg.hpp', 'view.hpp'], [('determinant/adjoint/inverse/div', 'linalg.hpp'), ('CofactorView', 'view.hpp')])
prop('C14', 'QR and LU factorizations multiply back and have the right structure',
  'The QR factorization of any real matrix (tall, square, wide, rank deficient, with zero columns) gives a square orthogonal Q and an upper triangular R of the shape of the input with Q times R equal to the input within rounding. The LU factorization of any square matrix with non-zero leading minors gives a lower triangular L and a unit upper triangular U with L times U equal to the input within the rounding of its elimination.',
  ['inputs'], 'all shapes up to about 20, values of different scale, rank deficient inputs, real types (and complex for LU)',
  'The linear algebra test ignores the results; QR is never called.',
  ['linalg.hpp'], [('qr_decomposition', 'linalg.hpp'), ('lu_decomposition', 'linalg.hpp')])
prop('C15', 'The matrix exponential is accurate and obeys its functional equations',
  'The matrix exponential agrees with the exact exponential within the requested relative accuracy times the growth due to the norm of the matrix, for every square matrix of moderate norm. It is the identity at zero and the element exponential on diagonals, exp(-A) inverts exp(A), exponentials of commuting matrices multiply, and similarity and transposition commute with it.',
  ['inputs'], 'square matrices of sizes 1 to 8 and norms from 0 to about 20, including nilpotent, diagonal, rotation and defective ones; real and complex; accuracies 1e-3 to 1e-12',
  'The control test exercises it indirectly on one system.',
  ['linalg.hpp', 'math.hpp'], [('expm', 'linalg.hpp'), ('log2_ceil', 'math.hpp')])
prop('C16', 'Solving a linear system returns the solution its shape calls for',
  'For a well-conditioned full-rank real system, solving returns the unique solution of a square system, the least-squares solution (residual orthogonal to the columns) of an overdetermined one, and the minimum-norm exact solution of an underdetermined one, within an error proportional to the rounding amplified by the conditioning. A square system whose determinant is zero is refused with an exception instead of being given a solution. The inputs are not modified, and scaling the right-hand side scales the solution.',
  ['inputs'], 'full-rank systems from 1x1 to about 8x8 and rectangular ones, including permuted and badly scaled rows, real types',
  'Solving is not tested at all.',
  ['linalg.hpp'], [('solve', 'linalg.hpp'), ('qr_decomposition/inverse', 'linalg.hpp')])
prop('C17', 'Discretization and simulation follow the state-space equations',
  'Discretizing a continuous model with a zero-order hold gives the exponential of the state matrix over the sample time and the corresponding input integral (also for a singular state matrix), keeps the output matrices and records the sample time, and composing discretized steps agrees with a longer step. Every simulated step satisfies next = A x + B u and y = C x + D u exactly as evaluated, the simulation chains the steps from the initial state over the smaller of the number of inputs and of the samples in the simulated time (none if that is negative or not a number, all the inputs if it is infinite or longer than any input), and times are the multiples of the sample time.',
  ['inputs', 'histories'], 'all conforming models with several inputs and outputs, sample times, initial states, input sequences of any length and simulated times',
  'One example system is simulated and only a final number is looked at.',
  ['control/control.hpp'], [('c2d/simulate_step/simulate', 'control/control.hpp'), ('generate_*_zero', 'control/control.hpp')])
prop('C18', 'Controllability, observability, polynomials and pole placement are correct',
  'The controllability and observability matrices are the stacked products of powers of the state matrix with the input or output matrix and are dual under transposition; the polynomial of a list of roots vanishes at each of them and that of a square matrix is its characteristic polynomial, leading coefficient one; reducing a polynomial strips exactly the leading zeros. The pole placement gain of a controllable single-input system gives the closed loop the characteristic polynomial with the requested poles, and a non conformal or uncontrollable request is refused by ending the program with failure.',
  ['inputs'], 'state dimensions 1 to 6, several inputs and outputs, repeated, zero and complex-valued roots, controllable and uncontrollable pairs',
  'The control test checks one system of each kind.',
  ['control/control.hpp'], [('ctrb/obsv/poly/polyreduce/acker', 'control/control.hpp')])
prop('C19', 'Eigenvalue computations preserve similarity and structure',
  'The Hessenberg reduction and the iterated triangularization of a complex square matrix return a unitary P and a matrix T of the promised shape (upper Hessenberg; upper triangular whenever no non-convergence warning is issued) with P T P* equal to the input within rounding; the Givens factorization of a Hessenberg matrix returns a unitary Q and an upper triangular R that multiply back. The eigenvectors of an upper triangular matrix with distinct diagonal satisfy T v = lambda v, are normalized, and are flagged as a full set.',
  ['inputs'], 'complex matrices of sizes 1 to 7, including Hermitian, triangular, defective, real-valued and already reduced ones',
  'No test includes the eigenvalue code.',
  ['eigen.hpp'], [('hessenberg/qr_factorise_givens/QRHessenberg/eigenvectorUpper/wilkinson_shift', 'eigen.hpp')])
prop('C20', 'What is written to a file is read back the same',
  'Writing vectors and matrices (in any order, several in one file, views included) to a file stream with enough precision and reading them back in the same order yields the same shapes and the same values, whatever the receiving objects held before; with any precision the result is the value rounded to that precision, and writing does not change the objects. An object of the other kind, or one past the end of the file, is refused visibly (a message or a failed stream) and leaves the receiving object as it was.',
  ['inputs', 'histories'], 'all shapes including empty, finite values of every element type, precisions, sequences of objects in one file, previous contents of the receiver',
  'The file test writes and reads one matrix and one vector of small values.',
  ['io.hpp'], [('operator<< and operator>> on file streams', 'io.hpp')])
prop('C21', 'Reading a damaged or hostile file is always safe',
  'Whatever bytes a file holds, reading a vector or a matrix from it terminates without invalid memory accesses, and either fails visibly (stream in a failed state, message, or exception) or yields an object whose shape is the one declared in the file; a file that holds fewer readable numbers than it declares never passes for a complete object. The receiving object stays usable, with a shape consistent with its storage.',
  ['inputs', 'fault_sequences'], 'all byte strings: valid files with truncations, corruptions, hostile sizes, wrong tags and random bytes; every element type; any earlier content of the receiver',
  'Only well-formed files are ever read by the tests.',
  ['io.hpp', 'vector.hpp', 'matrix.hpp'], [('operator>> on file streams', 'io.hpp'), ('allocate', 'vector.hpp')])
prop('C22', 'Text renderings contain every element at its place',
  'Printing a vector or matrix lists every element once, in row order, one line per row, columns aligned to the width of the longest element, with the precision of the stream and no trailing separators, and leaves the stream format as it was; dumps prefix it with the name. The matlab and C++ renderings have balanced brackets and evaluate back to the same shape and values, complex values included, and models print all of their matrices in order.',
  ['inputs'], 'all shapes including empty, values, element types, precisions, operand forms and names',
  'The tests print values without looking at the text.',
  ['io.hpp'], [('operator<<, dump_*, to_matlab, to_cpp', 'io.hpp')])
prop('C23', 'Generators produce the requested shape and values',
  'Linear spacing returns num points starting at start and ending at stop, evenly spaced in either direction (all equal to stop when the ends coincide, and just stop for one point, none for zero); logarithmic spacing returns the base raised to those points. Identity, eye, zeros, ones and diagonal construction return exactly the requested shape and values and reject zero dimensions where documented, random arrays have the requested shape with every component in the requested bounds, are not constant, spread over the whole range and differ from call to call, and the number basis is that of the machine.',
  ['inputs'], 'all counts, ends in both orders, bases, shapes, element types and bounds',
  'The utility test checks a few fixed calls.',
  ['utility.hpp'], [('linspace/logspace/eye/identity/zeros/ones/diag/rand_matrix/rand_vector/basis', 'utility.hpp')])
prop('C24', 'Results do not depend on the storage order',
  'Switching the documented storage order of the matrices from row-major to column-major changes only the linear (storage) order: every operation addressed by rows and columns produces the same shapes and the same elements, the same decisions and the same rejections in both configurations, up to rounding where sums are formed in another order; so do models, controllers, decompositions, and files, which one configuration may write and the other read. Linear access enumerates the same elements row by row in one and column by column in the other, for matrices and for every kind of view.',
  ['configurations', 'inputs'], 'all programs built from the library operations over generated operands, in both configurations',
  'The tests are built in one configuration only.',
  ['matrix_base.hpp', 'matrix.hpp', 'view.hpp', 'utility.hpp'], [('ROW_MAJOR switch', 'matrix_base.hpp'), ('at/operator[]', 'matrix.hpp'), ('operator[]', 'view.hpp')])
prop('C25', 'A view behaves as a copy of what it shows, in every operation',
  'Every operation that accepts a matrix-like operand returns the same result, decision or rejection when it is given a view (range, cofactor, nested, constant) as when it is given a matrix holding a copy of the elements the view shows. No operation reads or writes the part of the viewed matrix that the view does not show.',
  ['inputs', 'programs'], 'all operations taking matrix-like operands, all views and contents',
  'The tests pass views to two or three operations.',
  ['view.hpp', 'math.hpp', 'linalg.hpp', 'utility.hpp', 'control/control.hpp', 'io.hpp'], [('MatrixBase interface', 'matrix_base.hpp'), ('View/CofactorView', 'view.hpp')])
prop('C26', 'Operands that do not conform are rejected before anything is touched',
  'Every operation on operands of non conforming shapes (arithmetic, comparison, products, dot products, stacking, determinant and inverse of non-square matrices, factorization, extraction or removal outside the matrix, reshape to another size, zero-sized generators, polynomial and controllability requests) throws instead of computing, never accesses memory outside the operands, and leaves both operands exactly as they were. Conforming operands are never rejected.',
  ['inputs'], 'all pairs of shapes, conforming or not, including empty ones, all operations, operand forms',
  'No test passes non conforming operands.',
  ['math.hpp', 'utility.hpp', 'linalg.hpp', 'control/control.hpp', 'matrix.hpp'], [('size checks', 'math.hpp'), ('size checks', 'utility.hpp')])
prop('C27', 'The same numbers give the same results whatever the element type',
  'On operands whose values are exactly representable in every type, each operation instantiated for int, long, float, double, long double and complex types (and for mixtures of them) gives numerically the same result, decision and shape, and real data gives the same through the complex instantiations with zero imaginary parts. No result is rounded to a narrower type than that of its operands: integers that a double does not hold come out exactly for long and long double. (The sign of a complex number is defined part by part and is compared on its real part only.) Specializations by element type never change the mathematics.',
  ['inputs', 'programs'], 'all operations available in several types, over small integer-valued operands',
  'The tests use one type per operation.',
  ['math.hpp', 'linalg.hpp', 'utility.hpp', 'control/control.hpp', 'type_traits.hpp'], [('if constexpr branches and common types', 'math.hpp')])
prop('C28', 'Running out of memory is reported, and corrupts nothing',
  'When an allocation inside any operation, constructor, assignment or resize fails (one allocation, or that one and all after it), the caller sees std::bad_alloc and nothing else: no crash, no access outside the operands, no memory leaked, no other object changed. Operands that the operation only reads keep their values; an object that was being written stays usable, its shape agreeing with its storage, so that every element that its shape announces can be read, written and resized; and an assignment or a resize that fails has no effect: the object keeps its shape and its elements. The same operation afterwards, with memory available, gives its usual result.',
  ['inputs', 'fault_sequences'], 'every operation and history of operations, and every allocation that it makes, failing',
  'No test makes an allocation fail, and each operation allocates at many different points.',
  ['vector.hpp', 'matrix.hpp', 'view.hpp', 'math.hpp', 'utility.hpp', 'linalg.hpp', 'control/control.hpp'], [('malloc and realloc in reserve, resize and the constructors', 'vector.hpp'), ('assignment and resize', 'matrix.hpp')])
prop('C29', 'Operations keep no hidden state',
  'A result depends on the operands and on the tolerance only: the same call gives bit for bit the same result whatever was computed before, also by calls that were rejected, and on objects that were given new elements since. No operation changes the tolerance, the rounding mode, the locale or the format of the standard streams. Threads that work on operands of their own, on operands that all of them only read, or on views of different parts of one matrix, do not race and get the results that they get alone.',
  ['inputs', 'schedules', 'histories'], 'all operations, in any order and from any number of threads that do not write what others use',
  'Each test runs one operation once, in one thread.',
  ['math.hpp', 'linalg.hpp', 'utility.hpp', 'feq.hpp', 'control/control.hpp', 'view.hpp', 'matrix_base.hpp', 'eigen.hpp'], [('the only state: the tolerance', 'feq.hpp'), ('static function object', 'linalg.hpp')])
prop('C30', 'Every operation is safe on any numbers',
  'Whatever numbers the operands have (not-a-number, infinities, the smallest and largest, subnormal ones), every operation terminates without undefined behaviour, changes only what it is documented to change, and gives results of the shape that it gives for ordinary numbers: no number makes it index outside the operands, convert a value out of range, loop forever or reject what conforms (except the division by a matrix, the inverse and the solution of a system, which depend on the determinant).',
  ['inputs'], 'every operation on every floating point and complex type with special values anywhere in the operands',
  'The tests use small ordinary numbers.',
  ['math.hpp', 'linalg.hpp', 'utility.hpp', 'control/control.hpp', 'eigen.hpp', 'complex_math.hpp', 'io.hpp'], [('loops that depend on values', 'linalg.hpp'), ('log2_ceil and generators', 'utility.hpp')])

prop('C31', 'Any selection and order of headers, in any number of translation units',
  'A program may include any of the headers, each alone or with others, in any order and repeatedly, before or after standard headers and its own declarations, in one or several translation units, with g++ or clang++, as C++17, 20 or 23, at any optimization level: what a header declares can be used wherever it is included, the program compiles, links, keeps its own names, shares one comparison tolerance, and computes the same results as with everything included in one file.',
  ['programs', 'configurations'], 'every selection, order and repetition of headers; every split of the uses over translation units; both compilers, three language versions, five optimization levels',
  'Each test is one translation unit built in one way, and always includes the same headers in the same order.',
  ['utility.hpp', 'math.hpp', 'linalg.hpp', 'eigen.hpp', 'io.hpp', 'control/control.hpp', 'feq.hpp', 'matrix.hpp', 'vector.hpp', 'view.hpp', 'type_traits.hpp', 'complex_math.hpp', 'version.hpp'], [('includes and guards', 'utility.hpp'), ('tolerance', 'feq.hpp')])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(path, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), [ (p['id'], len(p['title'])) for p in P if len(p['title']) > 80])
