ENUM = 'model checking: exhaustive bounded enumeration of inputs of the real code against a reference model'
BFS = 'model checking: explicit-state search over operation histories of the real object against a reference model'
BOTH = 'model checking: explicit-state search over operation histories plus exhaustive bounded enumeration of inputs, real code against a reference model'
NOTE = 'Every case inside the stated bounds is run on the real code (no sampling); nothing is claimed beyond the bounds. Trusts the reference model in /verif/harness and the compiler.'

PROPS = [
dict(id='C01', title='Bit pools and labelled sets behave as finite sets under every history',
  statement='After any sequence of add, remove, fill, grow, union and intersection, a bit pool (and a set over given labels) contains exactly the members a mathematical set would, and its size, fullness, iteration order, subset and equality answers and its printed form are those of that set. Growing keeps the members; indices outside the pool, unregistered labels, and binary operations or comparisons of pools of different lengths are rejected with a panic.',
  over=['histories', 'inputs'], quant='all operation histories, all pool lengths (in particular around multiples of 64)',
  why='The tests fix a few pools of length 10 and 100; errors at word boundaries, in the cached member count, or after particular histories (fill then remove, grow then fill) are not reached.',
  files=['util/src/lib.rs'], mech=[('BinaryPool (64-bit words plus cached element count)', 'util/src/lib.rs BinaryPool'), ('LabeledSet over BinaryPool', 'util/src/lib.rs LabeledSet'), ('bitwise::count_ones', 'util/src/lib.rs bitwise')],
  technique=BOTH, note=NOTE + ' Lengths 0..=5 with all indices; lengths around 64 and 128 with word-boundary indices.'),
dict(id='C02', title='Tuple iteration yields every k-subset exactly once, in lexicographic order',
  statement='For every slice of n elements and every k >= 1, iterating over its k-tuples yields each k-element subset exactly once, elements in slice order, subsets in lexicographic order of positions, and then nothing more. When k > n nothing is yielded.',
  over=['inputs'], quant='all n and k >= 1',
  why='Tests list n=5,k=3 and count n=20,k=10; order, completeness and termination for other (n,k), such as k=1, k=n, k=n-1, are not settled.',
  files=['util/src/lib.rs'], mech=[('TupleIterator odometer (is_blocked, curr_idx)', 'util/src/lib.rs TupleIterator')],
  technique=ENUM, note=NOTE),
dict(id='C03', title='Rational numbers are exact, canonical and totally ordered',
  statement='Every rational obtained by construction, +, -, *, /, negation, absolute value, sums and products equals the exact mathematical value in lowest terms with one representation per value (zero included), as long as intermediate values fit in 64 bits; zero denominators and division by zero panic. As elements of a field every nonzero rational divides every rational, leaving no remainder. Equality, hashing, ordering, printing and conversion to a float all agree with that value.',
  over=['inputs', 'histories'], quant='all pairs of rationals, all histories of operations',
  why='Tests check a handful of values; sign and zero handling, gcd reduction and ordering must hold for all pairs and after any history (for example a negated zero).',
  files=['alg/src/commutative/rational_impl.rs', 'alg/src/commutative.rs'], mech=[('gcd normalisation with a separate sign', 'alg/src/commutative/rational_impl.rs optimize'), ('Ord by cross multiplication', 'alg/src/commutative/rational_impl.rs cmp')],
  technique=BOTH, note=NOTE),
dict(id='C04', title='Integers form a Euclidean domain: division, divisibility, Bezout, primes',
  statement='For every integer type and all n and d with d nonzero, Euclidean division gives q and r with n = q*d + r and 0 <= r < |d|, and d divides n exactly when r is zero (zero divides only zero). The Bezout function returns the non-negative gcd together with coefficients that combine the inputs to it; primality and the number of prime factors (with multiplicity) are those of |n|; normalisation splits n into a unit and |n|.',
  over=['inputs'], quant='all pairs of integers, all integer types, as long as values fit the type',
  why='Tests use a few pairs and unseeded random ones; sign combinations, zero, and large magnitudes are not settled, and the prime functions have no test.',
  files=['alg/src/commutative.rs'], mech=[('PID impl for the integer types', 'alg/src/commutative.rs pid_impl'), ('bezout_identity recursion', 'alg/src/commutative.rs bezout_identity')],
  technique=ENUM, note=NOTE),
dict(id='C05', title='Formal linear combinations form a free module in canonical form',
  statement='Whatever the sequence of additions (of two or of any number of vectors), subtractions, negations, scalings and divisions that produced it, a formal linear combination lists every basis element with nonzero coefficient exactly once, in basis order, with exactly the coefficient the algebra dictates. Coefficient lookup of a listed element, length, equality and printing agree with that, and vectors built from lists of basis elements count repetitions.',
  over=['inputs', 'histories'], quant='all finite sums of vectors, all histories',
  why='Tests add a few vectors over three or four basis elements; the merge of several sorted lists can go wrong only for particular interleavings of their supports.',
  files=['alg/src/lin_alg.rs'], mech=[('k-way merge in Sum for Vector', 'alg/src/lin_alg.rs impl Sum for Vector'), ('formal_sum_impl! operators', 'alg/src/lin_alg.rs formal_sum_impl')],
  technique=BOTH, note=NOTE),
dict(id='C06', title='Permutations in cycle notation form the symmetric group and act on vectors',
  statement='Composition, inverses, powers of any sign, block swaps, cyclic permutations and decomposition into transposition generators of permutations in cycle notation agree with functions on the integers, and equal functions have equal, identically printed representations. Acting on a vector moves the element at position i to the image of i, and acting by p and then q is acting by q*p. Overlapping cycles, repeated points and overlapping blocks are rejected with a panic.',
  over=['inputs'], quant='all permutations and pairs of permutations',
  why='Tests multiply a few fixed permutations; canonical form, powers, and the action must hold for all pairs, including ones with disjoint or partly overlapping supports.',
  files=['alg/src/non_commutative/permutation.rs', 'alg/src/non_commutative.rs'], mech=[('Permutation multiplication by orbit tracing', 'alg/src/non_commutative/permutation.rs impl Mul for Permutation'), ('generators and Gset action', 'alg/src/non_commutative.rs Group, Gset')],
  technique=ENUM, note=NOTE),
dict(id='C07', title='Array permutations (fixed-size and growable) form a group',
  statement='For permutations stored as arrays, of fixed size or growable, products compose as functions (right factor first, shorter arrays fixing the points beyond their end), inverses undo, the order is the least positive power giving the identity, and iterated products apply their first factor first. Two of them are equal exactly when they are equal as functions, and evaluation agrees with the stored images.',
  over=['inputs'], quant='all permutations, pairs and triples, of equal and of different lengths',
  why='There is no test of these types at all.',
  files=['alg/src/non_commutative/permutation.rs'], mech=[('ConstPermutation', 'alg/src/non_commutative/permutation.rs ConstPermutation'), ('VecPermutation', 'alg/src/non_commutative/permutation.rs VecPermutation')],
  technique=ENUM, note=NOTE),
dict(id='C08', title='Dense matrices satisfy the ring and module laws, however operands are stored',
  statement='Sum, difference, product, dot product, scalar product and quotient, assignment forms, transposition, copying, equality, printing, identity and zero matrices, and the product of an integer matrix with a list of basis elements equal the textbook results entry by entry. This holds for every element type, every shape, and for every mixture of owned matrices, references, transposed matrices and views of larger matrices, and leaves borrowed operands unchanged. Operands whose sizes do not fit, ragged or empty rows and empty sizes are rejected with a panic. Literals written with the matrix macro, with or without an element type, denote the entries written.',
  over=['inputs'], quant='all shapes, all entries, all storage forms of both operands',
  why='Tests multiply a few square or small matrices; the operators exist in four ownership variants each and index through strides, so a mistake can show only for one variant, one shape or one storage form. Printing, division and size mismatches are hardly tested.',
  files=['alg/src/lin_alg/matrix_impl.rs', 'alg/src/lin_alg.rs'], mech=[('operator impls for Matrix and &SubMatrix', 'alg/src/lin_alg/matrix_impl.rs impl ops for SubMatrix and Matrix'), ('matrix! and from_array', 'alg/src/lin_alg/matrix_impl.rs from_array'), ('change of basis', 'alg/src/lin_alg/matrix_impl.rs impl Mul<Vec<Basis>> for Matrix<i64>')],
  technique=ENUM, note=NOTE + ' Floating-point entries are small integers or eighths, for which the arithmetic is exact.'),
dict(id='C09', title='Views of a matrix alias exactly the cells they name',
  statement='Indexing a matrix or a view by any combination of ranges and single indices gives a view of exactly the named rows and columns (empty ones included), through any nesting and transposition; reads see and writes change exactly those cells and no others. Swapping rows or columns, adding a multiple of a row or column to another (or to itself), scaling and overwriting act on exactly the view they are called on. Anything out of range is rejected with a panic, and a matrix with a side of 65536 or more is rejected instead of being mishandled.',
  over=['inputs', 'histories'], quant='all index combinations, all nestings, all histories of writes, all sizes',
  why='Views pack size and strides into the metadata of a fat pointer built with unsafe code; tests look at a few views of one matrix. Wrong strides or a wrong bound show up only for particular nestings, transpositions, shapes or very long sides.',
  files=['alg/src/lin_alg/matrix_impl.rs'], mech=[('packed metadata', 'alg/src/lin_alg/matrix_impl.rs compress, extract'), ('48 index impls', 'alg/src/lin_alg/matrix_impl.rs submatrix_index_by_ranges_impl'), ('in-place operations', 'alg/src/lin_alg/matrix_impl.rs swap_rows, row_operation, write')],
  technique=BOTH, note=NOTE),
dict(id='C10', title='Every matrix element is created, owned and dropped exactly once',
  statement='Whatever the sequence of matrix operations, including ones rejected with a panic half-way or in which an operation on an element fails, a matrix owns exactly rows times columns live elements: nothing uninitialised or already dropped is ever read or dropped, every element is dropped exactly once, and when the matrices are gone no memory of theirs remains allocated.',
  over=['histories'], quant='all histories of operations, including rejected ones, on owned elements',
  why='The tests use plain numbers, for which uninitialised reads, double drops and leaks are invisible.',
  files=['alg/src/lin_alg/matrix_impl.rs'], mech=[('raw allocation of Matrix', 'alg/src/lin_alg/matrix_impl.rs Matrix::from_fn, impl Drop for Matrix')],
  technique=BFS, note=NOTE + ' Elements carry registered identities; the allocator of the harness counts bytes and poisons fresh and freed memory.'),
dict(id='C11', title='The Smith normal form is a certified diagonalisation with a divisor chain',
  statement='For every matrix A over the integers (and over the rationals), smith_normal_form returns (P1, P, D, Q, Q1) with P*A*Q = D, P1 the inverse of P and Q1 the inverse of Q over the same ring, and D diagonal. Its diagonal entries are canonical (non-negative over the integers), each divides the next, and zeros come last, so the number of nonzero entries is the rank and the first is the gcd of all entries. This is promised as long as intermediate values fit the integer type.',
  over=['inputs'], quant='all integer matrices of all shapes',
  why='Tests check seven matrices, and not the inverse transformations in every branch; the divisor repair step runs only for particular diagonals.',
  files=['alg/src/lin_alg/matrix_impl.rs', 'alg/src/commutative.rs'], mech=[('pivot improvement with Bezout row and column operations', 'alg/src/lin_alg/matrix_impl.rs smith_normal_form'), ('divisor chain repair', 'alg/src/lin_alg/matrix_impl.rs smith_normal_form')],
  technique=ENUM, note=NOTE),
dict(id='C12', title='Rank and Betti numbers over a field are exact',
  statement='For every rational matrix, rank_as_linear_map returns its rank and leaves the matrix unchanged; and for every sequence of boundary matrices of a chain complex, the dimensions returned by the homology with field coefficients are dim ker of each boundary minus the rank of the next one.',
  over=['inputs'], quant='all rational matrices, all chain complexes',
  why='The tests use ten matrices, nearly all of which have nonzero diagonals, so pivot search is not exercised.',
  files=['alg/src/lin_alg/matrix_impl.rs', 'topo_spaces/src/lib.rs'], mech=[('Gaussian elimination', 'alg/src/lin_alg/matrix_impl.rs rank_as_linear_map'), ('HomologyWithFieldCoefficients::homology', 'topo_spaces/src/lib.rs')],
  technique=ENUM, note=NOTE),
dict(id='C13', title='Sparse matrices behave exactly like the dense matrices with the same entries',
  statement='A sparse matrix lists in each row and each column exactly its stored entries, in order and with the right indices, prints them row by row, and is equal to another sparse or dense matrix exactly when size and all entries agree, however many explicit zeros either of them stores and whether it was built directly or by transposing. Products with sparse and dense matrices on either side equal the dense product; transposing twice is the identity; products whose inner sizes differ are rejected with a panic. Copies do not depend on the original, and dropping a matrix, however long its rows and columns, releases every entry.',
  over=['inputs'], quant='all sparsity patterns and entries (explicit zeros included), all shapes, both storage orders of both operands',
  why='The tests use a few fixed matrices, without empty rows or columns, stored zeros or an empty matrix; the row and column linked structure can be wrong for one particular pattern only.',
  files=['alg/src/lin_alg/sparse_matrix_impl.rs'], mech=[('linked rows and columns with a transposition flag', 'alg/src/lin_alg/sparse_matrix_impl.rs SparseMatrix'), ('row and column iterators', 'alg/src/lin_alg/sparse_matrix_impl.rs row_iter, col_iter')],
  technique=ENUM, note=NOTE),
dict(id='C28', title='Fixed-size vectors and matrices obey the vector space operations entry by entry',
  statement='For compile-time-sized vectors, sum, difference, negation, multiplication and division by a scalar, assignment forms, dot product, the zero vector, the two-norm, equality and element access give the textbook result. For compile-time-sized matrices, construction from rows or columns, assignment sum and difference, negation, multiplication and division by a scalar, zero, identity, equality and element access do. Neither changes any entry it should not.',
  over=['inputs'], quant='all entries, scalars and shapes',
  why='The tests use one or two examples per operator; a wrong index or operand order shows only for other shapes and entries.',
  files=['alg/src/lin_alg/const_matrix_impl.rs'], mech=[('ConstVector and ConstMatrix operators', 'alg/src/lin_alg/const_matrix_impl.rs')],
  technique=ENUM, note=NOTE),
dict(id='C14', title='Determinants, LU, linear systems and norms are right for every matrix and view',
  statement='For every real square matrix the determinant is the signed sum over permutations, up to rounding; the in-place LU decomposition multiplies back to the matrix whenever all leading minors are nonzero; solving a nonsingular system returns the solution, wherever the zero entries lie; and the one, two, infinity and Frobenius norms match their definitions. All of this holds for views and transposes as for owned matrices, and system and vector operations with sizes that do not fit are rejected with a panic.',
  over=['inputs'], quant='all matrices, all right-hand sides, all storage forms',
  why='Tests use random or diagonally dominant matrices, for which pivoting is never necessary; zero pivots and row exchanges appear only for particular patterns of zeros.',
  files=['alg/src/lin_alg/matrix_impl.rs'], mech=[('LU with partial pivoting', 'alg/src/lin_alg/matrix_impl.rs lu_with_pivoting, solve_with_lu'), ('norms', 'alg/src/lin_alg/matrix_impl.rs one_norm, two_norm, inf_norm, frobenius_norm')],
  technique=ENUM, note=NOTE + ' Entries are small integers and exact fractions; results are compared with exact rational arithmetic up to a stated rounding tolerance.'),
dict(id='C15', title='Orthogonal reductions and eigenvalue computations are right and terminate',
  statement='Gram-Schmidt, Householder vectors, Givens rotations, Hessenberg form, Francis steps, the QR algorithm and symmetric tridiagonal QR each return the factor they promise: orthogonal transformations, the promised shape, and, when asked for, the transformation that carries the input to the output. The spectrum functions end and return exactly the eigenvalues with multiplicity for symmetric matrices and for matrices with distinct real eigenvalues, and eigenvectors satisfy A*v = lambda*v, and are orthonormal for symmetric matrices even when eigenvalues repeat.',
  over=['inputs'], quant='all matrices, including ones with zeros, repeated eigenvalues and exact shifts',
  why='Tests draw random matrices, for which degenerate cases (zero columns, exact eigenvalue shifts, repeated eigenvalues, size one and two) have probability zero, yet these are what structured integer matrices such as graph Laplacians produce.',
  files=['alg/src/lin_alg/matrix_impl.rs'], mech=[('implicit shifted QR', 'alg/src/lin_alg/matrix_impl.rs francis_step_with_shifts, raw_qr'), ('symmetric QR', 'alg/src/lin_alg/matrix_impl.rs householder_tridiagonalization, symmetric_qr'), ('inverse iteration', 'alg/src/lin_alg/matrix_impl.rs eigenvector')],
  technique=ENUM, note=NOTE + ' Results are compared with exact characteristic polynomials up to a stated rounding tolerance.'),
dict(id='C16', title='LLL reduction returns a reduced basis of the same lattice',
  statement='For every linearly independent set of integer vectors and every delta strictly between 1/4 and 1, lattice reduction ends with a basis of the same lattice (same vectors up to an integer change of basis of determinant one or minus one) that is size-reduced and satisfies the Lovasz condition; other values of delta and shapes that cannot be a basis are rejected with a panic.',
  over=['inputs'], quant='all bases, all delta',
  why='Tests reduce three fixed bases and compare with one expected answer; termination, the lattice invariant and both reducedness conditions must hold for every basis and delta.',
  files=['alg/src/lin_alg/matrix_impl.rs'], mech=[('LLL with Gram-Schmidt updates', 'alg/src/lin_alg/matrix_impl.rs lll_lattice_reduce, gram_schmidt_coeff_update')],
  technique=ENUM, note=NOTE),
dict(id='C29', title='Random matrices are what their name says, whatever the generator draws',
  statement='Whatever numbers the thread\'s random generator returns: a random matrix has the size asked for and the same draws give the same matrix; a random symmetric and a random sparse symmetric square matrix are symmetric; a random unit vector is a column of the length asked for with two-norm one; a random orthogonal matrix is square of the size asked for with orthonormal rows and columns (draws that leave nothing but zeros to normalise are excepted). Entries that are not forced by that vary with the draws: none is constant, no two are tied to each other (in matrices, symmetric and sparse symmetric ones; the latter\'s entries can be zero and nonzero, on their own), and the coordinates of unit vectors take both signs.',
  over=['inputs', 'schedules'], quant='all draws of the generator, all sizes',
  why='Tests draw a few matrices and check one of the kinds; what holds for typical draws is not what holds for every draw, and a constant or duplicated entry goes unnoticed.',
  files=['alg/src/lin_alg/matrix_impl.rs'], mech=[('random matrices', 'alg/src/lin_alg/matrix_impl.rs random, random_symmetric, random_orthogonal, random_unit_vec, random_sparse_symmetric')],
  technique='model checking: exhaustive bounded enumeration of the outcomes of the random generator (replaced by a controlled one) under the real code', note=NOTE + ' The generator is the rand crate with one change (rand-controlled): a list of numbers can take the place of thread_rng.'),
dict(id='C17', title='Simplicial complexes hold what was attached; signed boundaries square to zero',
  statement='After any sequence of attached simplices, after building from a vertex count, and for the complexes and boundaries of a simplex given by the macros, a simplicial complex has its vertices in order of first appearance and contains exactly the faces of what was attached, each once. Its dimension, the number of cells of each dimension and its connectivity agree with that. Each boundary map lists each cell once, has entries of absolute value one exactly at the faces, and two consecutive ones multiply to zero. This holds for large simplices and for more than 64 vertices too. Repeated labels in a simplex and empty simplices are rejected with a panic.',
  over=['inputs', 'histories'], quant='all attach histories, all complexes, all numbers of vertices',
  why='Tests build a few fixed complexes; simplices are stored as bit sets and in a face lattice whose indices depend on the order of attachment and cross word boundaries at 64 vertices.',
  files=['topo_spaces/src/simplicial/mod_impl.rs', 'topo_spaces/src/simplicial/mod.rs'], mech=[('attach with face closure', 'topo_spaces/src/simplicial/mod_impl.rs SimplicialCplx::attach'), ('boundary maps', 'topo_spaces/src/simplicial/mod_impl.rs boundary_map')],
  technique=BOTH, note=NOTE),
dict(id='C18', title='Integral homology of a chain complex is right: torsion and representatives',
  statement='For every sequence of integer boundary matrices of a chain complex, the homology printed per dimension has exactly the free rank and the torsion coefficients the boundary matrices determine, up to the requested top dimension. The cycles listed are a basis of the kernel of the boundary, the boundaries listed are a basis of its image, and the homology of a simplicial complex is that of its boundary matrices. Modules print in canonical form, and are zero or isomorphic exactly when their ranks and torsion say so.',
  over=['inputs'], quant='all chain complexes, all simplicial complexes, all top dimensions',
  why='Tests compute the homology of a few spaces with torsion-free or Z_2 homology; shapes such as zero boundaries, several torsion coefficients and truncated dimensions are not settled.',
  files=['topo_spaces/src/lib.rs', 'alg/src/lin_alg.rs', 'alg/src/lin_alg/matrix_impl.rs'], mech=[('homology from two Smith normal forms', 'topo_spaces/src/lib.rs IntegralHomology::new'), ('Module', 'alg/src/lin_alg.rs Module')],
  technique=ENUM, note=NOTE),
dict(id='C19', title='Graphs and weighted graphs: right counts, adjacency and Laplacian',
  statement='A graph built from any list of edges (loops and repeated edges included, by constructor or macro) has exactly the vertices named, with exactly the loops and the non-loop edges listed at each place, counted up to multiplicity. The adjacency matrix of a weighted simple graph (from a list or by macro) holds the weight listed for each pair of vertices and zero elsewhere, its Laplacian is degree minus adjacency, both are symmetric, over integers, rationals and floats alike, and loops are rejected with a panic.',
  over=['inputs'], quant='all edge lists, all weights',
  why='Tests build two or three small graphs; repeated loops, repeated edges in both directions and isolated patterns are not settled.',
  files=['topo_spaces/src/graph.rs'], mech=[('Graph construction', 'topo_spaces/src/graph.rs Graph::from'), ('adjacency and Laplacian', 'topo_spaces/src/graph.rs WeightedSimpleGraph')],
  technique=ENUM, note=NOTE),
dict(id='C20', title='Subdivided graphs are subdivided enough and numbered along a maximal tree',
  statement='For every connected graph, every embedding of its vertices, and every number n of points, the subdivided graph is a subdivision of the graph given: its original vertices keep their names and places, every edge gets n-2 new vertices (at least one) and every loop n (at least two), evenly spaced and named after the edge, and its edges join consecutive vertices along each edge and nothing else. The maximal tree returned spans it, is rooted at a base point of degree one in the tree, and its vertices are numbered depth-first, so that the flow from any vertex leads to its parent and on to the base point. Changing the embedding and printing agree with that.',
  over=['inputs'], quant='all connected graphs (with loops and repeated edges), all n',
  why='Tests subdivide two fixed graphs and look at the vertex count; what the tree looks like depends on the choice of base point, on loops and on multiple edges.',
  files=['topo_spaces/src/graph.rs'], mech=[('subdivision and maximal tree', 'topo_spaces/src/graph.rs SimpleGraph::subdivided_graph_from, RawSimpleGraph::choose_maximal_tree')],
  technique=ENUM, note=NOTE + ' Only connected graphs are promised.'),
dict(id='C21', title='Simple graphs keep symmetric adjacency; cell relations are as defined',
  statement='After any sequence of adding and removing edges, swapping vertices and acting by permutations, a simple graph contains exactly the edges the history determines, symmetrically, and its vertex and edge iterators, degrees, adjacency lists, connectivity and printing agree with that. On a graph whose vertices are numbered depth-first from a base point, the maximal tree, the degrees in the tree, the flow of a vertex, blocked vertices and paying for a tree edge are those of that numbering. For vertices and edges as factors of cells, disjointness, order, end points, and whether an edge respects the order of the tree at a vertex are those of the definition.',
  over=['histories', 'inputs'], quant='all histories of operations, all graphs on few vertices, all pairs of factors',
  why='Tests add a few edges to one graph; bit-packed rows, symmetric updates and swaps can be wrong for one particular pair of vertices only.',
  files=['topo_spaces/src/graph.rs'], mech=[('adjacency bit sets', 'topo_spaces/src/graph.rs RawSimpleGraph'), ('cell factors', 'topo_spaces/src/graph.rs CubeFactor')],
  technique=BOTH, note=NOTE),
dict(id='C22', title='The unordered configuration complex has exactly the right cells and homology',
  statement='For every connected graph and n >= 1, the complex of n unordered points on the subdivided graph has as its cells exactly the sets of n pairwise disjoint closed vertices and edges. The boundary of a k-cell is the 2k faces got by moving one edge to either end, with opposite signs for the two ends, and two consecutive boundary maps multiply to zero. The homology printed, the cycles and the boundaries are those of the configuration space of n points on the graph.',
  over=['inputs'], quant='all connected graphs, all numbers of points',
  why='Tests compute a few complexes; the enumeration of disjoint cells and the signs of faces can fail for graphs with loops, multiple edges or high degree only. The oracle is an independent, much smaller model of the same space.',
  files=['topo_spaces/src/cubical.rs'], mech=[('cell enumeration', 'topo_spaces/src/cubical.rs CubicalCplx::udc'), ('boundary maps', 'topo_spaces/src/cubical.rs boundary_map')],
  technique=ENUM, note=NOTE),
dict(id='C23', title='The discrete Morse complex has exactly the critical cells, the same homology',
  statement='For every connected graph, every n >= 1 and every top dimension asked for, the Morse complex of n unordered points has exactly the critical cells of the tree order (every vertex blocked or the base, every edge outside the tree or order-disrespecting), each once, printed with the right totals. Its boundary maps are the flow of the boundary of each critical cell, compose to zero, and its homology is that of the configuration space, as long as intermediate values fit 64 bits. The flow of a cell lands on critical cells, fixes critical cells, kills collapsible ones, and commutes with the boundary; cells describe their faces and ends correctly.',
  over=['inputs'], quant='all connected graphs, all numbers of points, all dimensions, all cells',
  why='Tests check a few graphs in low dimension; the gradient flow recursion behaves differently for every combination of blocked vertices and edges, and an error in one sign or one cell changes the homology of some other graph only.',
  files=['topo_spaces/src/cubical.rs', 'topo_spaces/src/graph.rs'], mech=[('critical cells', 'topo_spaces/src/cubical.rs UdnMorseCplx'), ('gradient flow', 'topo_spaces/src/cubical.rs Cube::flow, Cube::get_boundary')],
  technique=ENUM, note=NOTE),
dict(id='C24', title='Edge paths of moving points are reduced, inverted and composed up to homotopy',
  statement='Every path of moves of points on the subdivided graph can be reduced to a geodesic: same end points, same motion up to commuting disjoint moves and cancelling back-and-forth moves, and of minimal length. Inverses undo, composition concatenates, the trivial path does not move, and the permutation of the points a path performs is the one obtained by following each of them. The loop assigned to an edge of the Morse complex starts and ends at the base configuration, takes one valid step at a time, and flows to exactly that edge, and paths from any configuration to the base and back are valid.',
  over=['inputs', 'histories'], quant='all sequences of moves, all critical edges, all configurations',
  why='Tests reduce two fixed paths; which moves commute or cancel depends on the graph and on everything between them.',
  files=['topo_spaces/src/cubical.rs', 'topo_spaces/src/graph.rs'], mech=[('EdgePath reduction', 'topo_spaces/src/cubical.rs EdgePath::reduce_to_geodesic'), ('loops of critical edges', 'topo_spaces/src/graph.rs RawSimpleGraph::get_edge_path')],
  technique=ENUM, note=NOTE),
dict(id='C25', title='Delaunay triangulation returns exactly the triangles with empty circumcircles',
  statement='The circumcircle test answers whether a point is strictly inside the circumcircle of a triangle, whichever way round the triangle is listed. For points in general position, the triangulation returned is exactly the set of triples whose circumcircle contains no other point, each once. For points with cocircular or collinear subsets the triangles still cover the convex hull without overlap, are not degenerate, and have empty circumcircles; fewer than three points, or points on a line, give no triangle.',
  over=['inputs'], quant='all point sets, all orders and scales',
  why='Tests triangulate one set or random ones and check the number of triangles; points near the hull and on a common circle are where triangles go missing.',
  files=['geom/src/lib.rs'], mech=[('incremental triangulation', 'geom/src/lib.rs delaunay_triangulation'), ('circumcircle test', 'geom/src/lib.rs circum_circle_contains')],
  technique=ENUM, note=NOTE + ' Cocircular points are promised only with coordinates that floats represent exactly.'),
dict(id='C26', title='Smooth functions evaluate to what their expression says',
  statement='For every expression built from coordinates, the constants zero and one, sums, differences, products, quotients, integer and real powers, sine and cosine, and multiplication or division by a number, whether by operators, assignment operators, sums and products of lists, or in the closure of a builder, the smooth function obtained evaluates at every point where the expression is defined to the value of the expression. Maps of several components evaluate to the column of the values of their components, and what is printed for a function or map, read as a formula, has the same values.',
  over=['inputs', 'histories'], quant='all expressions, all points where they are defined',
  why='Tests build a few expressions; the simplification of sums, products and powers as they are built (merging, dropping zeros and ones, pulling out factors) behaves differently for every shape of expression.',
  files=['analysis/src/lib.rs'], mech=[('simplifying operators', 'analysis/src/lib.rs impl Add, Sub, Mul, Div, Neg for AtomicSmoothFn'), ('evaluation', 'analysis/src/lib.rs impl Function for AtomicSmoothFn')],
  technique=ENUM, note=NOTE + ' Values are compared at three points up to a stated rounding tolerance; structural equality of functions and the choice among equivalent printed forms are not claimed.'),
dict(id='C27', title='Partial derivatives and Jacobians of smooth functions are exact at every order',
  statement='For every expression and every coordinate, the partial derivative returned evaluates to the derivative of the expression at every point where it is defined, and so does a partial derivative of that. The Jacobian of a function is the row of its partial derivatives; the Jacobian of a map has in row i and column j the derivative of component i by coordinate j, and evaluating a matrix of functions, dense or sparse, evaluates every entry.',
  over=['inputs', 'histories'], quant='all expressions and maps, all coordinates, all points where they are defined',
  why='Tests differentiate a few expressions and compute one Jacobian; product, quotient and chain rules, powers, and index order go wrong only for particular shapes of expressions or of maps.',
  files=['analysis/src/lib.rs'], mech=[('derivatives', 'analysis/src/lib.rs AtomicSmoothFn::partial_derivative'), ('Jacobians', 'analysis/src/lib.rs jacobian, impl Function for Matrix and SparseMatrix')],
  technique=ENUM, note=NOTE + ' Values are compared with second-order jets at three points up to a stated rounding tolerance.'),
]
