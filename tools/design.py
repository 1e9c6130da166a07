import json,glob,os,sys
sys.path.insert(0,'/verif/tools')
from table import PROPS
ti={p['id']:p for p in PROPS}
head='''# Design

toppo is a library (crates `util`, `alg`, `topo_spaces`, `geom`, `analysis`, and programs that use them).
It has no threads, files or protocols of its own: what its users rely on is that *values* are right for every
input and after every history of operations on the mutable objects.  So the model checking used here is of the
first kind the task names: **systematic exhaustive exploration of the real code**, over

* all inputs in a bounded space (every matrix of a shape over an alphabet, every multigraph with a number of
  edges, every expression of a depth, every pair of permutations ...), and
* all operation histories (breadth-first explicit-state search over states that pair the real object with a
  reference model; states merged by a canonical key, either to closure or to a stated depth),

with every observation of every state compared with a **reference model** written independently in
`harness/src/props/*.rs` (plain `Vec`s, sets, functions on indices, exact `i128`/rational arithmetic, jets).
There is no separate abstract model that could drift away from the code: the explored transition system *is* the
code, rebuilt from /repo's working tree each time, so no trace has to be replayed to validate it.  Nothing is
sampled; the seed is not used.  No solver is used.

All 29 properties are decided this way; `not_applicable` is empty.

## Machinery

`harness/` is one crate (`mc`, its own `[workspace]`, path dependencies on /repo's crates; no hook was needed in
/repo: everything is reached through the public interface).  `check.sh ID TIER` builds it (release, offline, with
debug assertions and overflow checks on, so an overflow is a panic) and runs `mc run ID TIER`.

* `engine.rs`: `space(name, bound, size, decode, check)` enumerates `0..size` and decodes each index into a case;
  `list` runs all cases of a list; `bfs(Model)` explores histories.  Eight worker threads take chunks of indices.
  `guard` turns a panic of the code under test into a value (the property says which calls have to panic).
* `main.rs`: the spaces run in a child process.  Workers write what they are about to run into a mapped file, so that
  a stack overflow, an abort, a segfault or an endless loop (60 s without progress) of the code under test becomes
  a violation with that case named and replayable, and not the end of the check.
* The allocator poisons fresh and freed memory and counts live bytes per thread (used by C10, harmless elsewhere).
* A violation is re-run on its own before it is reported, is written to `replays/`, and
  `mc replay FILE` runs that case again (case index and operation history).
* Evidence: `states` are cases or distinct canonical states visited, `transitions` are calls of the real code compared
  with the reference, `outcomes` distinct observed results, per space its bound.  `exhaustive` is false when a wall cap
  or state cap was hit; no tier hits one on the unchanged tree.
* `known_findings.txt`: only `fixed:` lines (53 repaired defects); no open finding.
* `tools/table.py` is the single source of `properties.jsonl` and `MANIFEST.json` (`tools/gen.py`).

Floating point: where the result of the code is a float, inputs are small integers or dyadic fractions, the oracle is
exact (integers, rationals, or intervals in the form of a tolerance proportional to the size of the intermediate values),
and a tolerance several orders of magnitude above rounding and several below any error a wrong formula causes is used.
Eigenvalue oracles evaluate exact characteristic polynomials.

Quick tiers take 0.1 to 20 s each (after about 20 s for the first build); thorough tiers up to 10 minutes on 8 cores.

'''
D={
'C01':'''BFS over the real `BinaryPool`/`LabeledSet` paired with a `Vec<bool>`: operations add, remove, fill, resize (grow), rebuild, union, intersection, comparison; all observers after each step (membership, size, fullness, iteration, subset, equality, printing).  Debug printing too; pools of several hundred and several thousand members in structured patterns.  Lengths 0..=5 to closure; 62..=66 and 126..=130 with indices at word boundaries; pairs of pools of equal and of different lengths; `count_ones` on 16-bit patterns at 13 shifts and complements.  Out-of-range indices, unknown labels and mixed lengths have to panic.''',
'C02':'''All (n,k) up to n = 23 (thorough 26), k within 5 of either end for n up to 36 (48), within 3 up to 70 (130), extremes of k for n in 64,65,128,200,255..300 and 65535..70000; elements (not positions) compared with the list of k-subsets made recursively; the iterator is asked again after its end.  `tuple_iter(0)` is outside the statement.''',
'C03':'''All pairs of fractions up to a bound, ordered pairs near powers of two and near 2^63 whenever the textbook formula fits 63 bits, all sequences up to 4, BFS over histories of operations; oracle: `i128` fractions in lowest terms; hashes, order, printing, floats and the field's Euclidean division compared on every pair.''',
'C04':'''All pairs in each integer type (i8 to i128), pairs near powers of two and at the ends of each type, Fibonacci pairs, coefficients of Bezout's identity for values to 2^120; oracle: schoolbook division and trial division.''',
'C05':'''All tuples of up to four vectors over few basis elements, all pairs with larger coefficients, all 0/1 quadruples, words with repetitions, BFS of histories, and long supports in structured patterns; oracle: `BTreeMap` of coefficients.''',
'C06':'''All permutations of up to 7 (thorough 8) points, all pairs of 6 points, shifted and overlapping supports, all pairs of ranges, all words as cycles, and structured permutations of up to 300 points; oracle: arrays.''',
'C07':'''All permutations of up to 7 (thorough 8) points, pairs of 6 points, growable pairs of up to 5 (6) points of mixed lengths, triples of small lengths, and structured long ones (to 129 points); oracle: arrays.''',
'C08':'''Elementary matrices E_ij*E_kl for all shapes (this pins down the bilinear product completely for each shape), distinct entries in six element types, all contents over small alphabets, all storage forms of both operands (owned, stored transposed, view, transposed view), every pair of views of one matrix, all size mismatches, larger shapes in patterns (sides to 1025), matrix literals in all forms of the macro; oracle: nested `Vec`s.''',
'C09':'''All 49 kinds of index with all bounds, on all matrices up to 5x5 in all storage forms (read and write), views of views, every operation on every view, BFS of histories through overlapping views, sides around 2^16.  Oracle: lists of (row, column) pairs of the cells a view names.''',
'C10':'''BFS over up to three matrices of owned elements with registered identities: a drop of an element not alive, a second drop, a read of an unregistered one, or bytes left when all matrices are gone is a violation.  Operations rejected half-way are part of the alphabet.  Fault injection: every operation on every pair of small matrices is repeated with its first, second, ... last operation on elements panicking.''',
'C11':'''All matrices over given alphabets for every shape up to 4x4, scrambled diagonals with non-dividing entries, long diagonals; oracle: multiply back, unimodularity by the returned inverses, the diagonal compared with the gcds of all minors (exact).''',
'C12':'''All rational matrices over small alphabets up to 5x5, scaled and mixed-denominator patterns, all chain complexes of all generating sets of simplices (each basis also rescaled); oracle: fraction-free elimination in `i128`.''',
'C13':'''All sparsity patterns with explicit zeros up to 3x4, patterns with sides up to 20, all pairs of operands in both storage orders; oracle: nested `Vec<Option>`.''',
'C28':'''Vectors and matrices in other units (all entries times 2^k, |k| up to 300) scale exactly.  All pairs over small alphabets for lengths 1..=4 and shapes up to 3x3, six operations in all forms, larger shapes with distinct entries (33x33, 65x2, 3x129, vectors of 129 and 257); oracle: arrays.''',
'C14':'''All small matrices with all patterns of zeros; oracle: Leibniz formula / Bareiss in `i128`; LU multiplied back; solutions multiplied back; sizes that do not fit rejected; matrices scaled as a whole from 2^-200 to 2^200.  `solve` uses the first column of its right-hand side only, which is what is checked.''',
'C15':'''All matrices over alphabets with zeros up to 4x4 (symmetric up to 5x5), named graph Laplacians, combinatorial Laplacians of known complexes (where the general and the symmetric routine also have to agree), companion matrices with chosen roots, ten symmetric families of sides 3 to 20 (thorough 30), reductions of sides to 18, everything again in units from 2^-90 to 2^90 (Householder vectors to 2^+-300, rotations to 10^+-100, Gram-Schmidt with each vector in a unit of its own to 2^+-150); oracle: exact characteristic polynomial with multiplicities, orthogonality and shape of each factor, termination by the hang detector.''',
'C16':'''All integer bases over an alphabet in dimension 2 to 4 and several delta from just above 1/4 to 1, long two-dimensional bases, structured bases to dimension 22, small bases in units from 2^-200 to 2^200; oracle: exact rational Gram-Schmidt, lattice equality by integer change of basis of determinant +-1.''',
'C29':'''The one source of nondeterminism in toppo is `rand::thread_rng`.  `rand-controlled/` is rand 0.8.5 with one change: a list of numbers can take the generator's place (the harness patches it in; /repo is untouched).  Every list over an alphabet of up to six numbers (zero, tiny, near one, different low bits) is tried for each kind up to the size where 2 million (thorough: 60 million) lists suffice, and for sides up to 16 (30) constant and alternating lists and every list with one deviating draw; what may vary has to vary.''',
'C17':'''BFS of attach histories and all sets of generating simplices on few vertices, all orders; labels at word boundaries with more than 64 vertices; large simplices; oracle: sets of sets.''',
'C18':'''All chain complexes of matrices over small alphabets with dd=0, all simplicial complexes on few vertices, known spaces, torsion of large order, complexes of up to 14 degrees; oracle: independent Smith form by gcds of minors; kernels and images compared as lattices.''',
'C19':'''All edge lists (loops, repetitions in both directions) up to a length over few labels, macro and constructor; weighted graphs over integers, rationals and floats, by list and by macro, weights zero and large; graphs with up to 130 labels in patterns.''',
'C20':'''All connected multigraphs with loops in bounds (in every order and orientation of the edges for the smaller bound), all embeddings of a pattern, n = 0..6 (thorough 9), named graphs, structured graphs of up to 70 vertices, bundles of 13 parallel edges or loops; oracle: the subdivision written out exactly, numbering checked to be depth-first of a spanning tree with base of degree one.  Only connected graphs.''',
'C21':'''All simple graphs on up to 6 (thorough 7) vertices, every question; BFS of histories; graphs of 9 to 66 vertices in patterns and trees on them, with edges at word boundaries; Debug printing; relations of `CubeFactor`s; all graphs numbered depth-first for the questions about the tree.  `RawSimpleGraph::is_connected` on one vertex is pinned to false by a test and left alone.''',
'C22':'''All connected multigraphs in bounds and n; oracle for cells and boundary: direct enumeration of disjoint closed cells; oracle for homology: the Swiatkowski complex (an independent, much smaller model of the same space built from the graph that was given, not from the subdivided one; up to 21 points on small graphs) and the independent Smith form.''',
'C23':'''As C22, up to 24 points on small graphs, and up to 33 edges at one vertex: critical cells enumerated by the definition on the tree, each once; consecutive boundary maps; each boundary map against the flow of the boundary of each critical cell (signs included); homology against the Swiatkowski complex; for each cell of the full complex the flow and the boundary of the flow.  Homology by the repository code only when the number of critical cells is small enough for intermediate values to fit (i64 overflow in Smith forms is outside the statement).''',
'C24':'''All words of moves up to a length on several graphs, all groupings into steps, all motions of labelled points, long words, steps of up to 40 moves and up to 40 points in patterns, vertices with numbers far apart; oracle: the partially commutative (trace) group normal form; loops of critical edges of all complexes in bounds.''',
'C25':'''All sequences of points in grids (all orders), at three scales, sets with cocircular and collinear subsets, nearly all points on a line, structured sets of up to 34 points; oracle: exact integer in-circle determinants; for degenerate sets area and disjointness.''',
'C26':'''All expressions of depth 2 and further layers, pairs and triples of a pool of functions, histories of assignments, lists, builder coordinates; oracle: evaluation of the syntax tree at five points (zeros and ones among them); large exponents, and points and factors from 2^-400 to 2^400.  The printed form is parsed by an independent reader and evaluated at the same points.''',
'C27':'''As C26 with second-order jets (value, gradient and Hessian) computed on the syntax tree.''',
}
out=[head,'## Properties\n\n']
for p in PROPS:
    i=p['id']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n*Why the tests cannot settle it:* {p['why']}\n\n*How it is decided:* {D[i]}\n\n")
out.append('''## Defects found and repaired

The checks found 53 genuine defects, each repaired by one "fix:" commit in /repo; `known_findings.txt` lists them with
the property and the commit.  Each fixed entry suppresses nothing.

## What is outside, and why

* `vector!` expands to `Matrix::from_vec`, which does not exist (no use of it compiles), so there is no behaviour to check.
* `util/src/ordered_set.rs` is not part of the crate (not compiled).
* `random_symmetric` and `random_sparse_symmetric` of a matrix that is not square; draws that leave a zero vector to normalise
  (one in 2^52 at best); the distribution of the draws.
* `tuple_iter(0)`, the dimension and boundary maps of an *empty* simplicial complex, disconnected graphs in C20 to C24,
  overflow of i64 in Smith forms, cocircular points with coordinates floats cannot represent: outside the statements.
* The determinant of a non-square matrix is 0 in toppo; not claimed.
* Structural equality of smooth functions: not claimed (the simplification is not canonical).  What is printed is claimed only
  to denote the same function, not to be in a particular form.

Corrections of the machinery or of statements made on the way (false alarms): cocircular ties with inexact coordinates were
first reported as missing triangles (statement restricted); homology of large Morse complexes overflowed i64 inside the Smith
form (statement restricted to values that fit); equality of smooth functions was dropped from the statement.

## Planted bugs

`/verif/seeded/*`: each was written from a property's text and the code, confirmed to build, to pass the tests and to fail its
demonstration.  Which check reports which (quick tier):

| bug | property | caught | needs |
|---|---|---|---|
''')
caught={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    out.append(f"| {i} | {m['property']} | {caught.get(i,'yes')} | {m['needs']} |\n")

open('/verif/DESIGN.md','w').write(''.join(out))
