#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
E = "include/libcommute/expression/"
L = "include/libcommute/loperator/"
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Rewriting a product into canonical form never changes the operator",
 "For every product of fermionic, bosonic and spin generators (any spin, any mixture, any order, any length), the polynomial expression that results from multiplying them denotes exactly the operator that the product denotes: representing every generator by its textbook matrix, the sum over stored monomials of coefficient times matrix product equals the matrix product of the original factors. In particular all (anti)commutation relations, nilpotency of fermions and the spin-S power identities hold with the right signs and constants.",
 ["inputs"], "every word over an alphabet of generators up to a length bound, every algebra mixture, spins 1/2..5/2",
 "The tests check hand-picked commutators and a few products; the rewriting is a recursive bubble sort with three kinds of contraction, and sign or contraction errors show only for particular orders, repetitions and powers of generators.",
 [E+"expression.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"generator.hpp", E+"factories.hpp"],
 [("bubble-sort normal ordering with contractions", E+"expression.hpp normalize_and_store"), ("power reduction", E+"expression.hpp reduce_powers_and_store"), ("pairwise relations", E+"generator_*.hpp swap_with/simplify_prod/reduce_power")],
 ["expression products built from factory functions", "iteration over stored monomials"])

prop("C02", "Stored form is canonical: equal operators get identical monomial lists",
 "However an expression is computed (any bracketing of a product, any distribution of a product over a sum, any order of summation, incremental compound assignment or one-shot), the stored list of monomials and coefficients is the same, so that == decides equality of the algebraic results (for spins S > 1/2: as long as no intermediate product contains more than 2S raising or lowering factors of one site, beyond which only the operator value is unique). Every stored monomial is in non-decreasing generator order, cannot be simplified further by the algebra's own rules, occurs once, and its coefficient is not zero by the scalar type's zero test.",
 ["inputs", "histories"], "all bracketings/evaluation routes of all words up to a length bound over mixed alphabets; all short operation histories, including scalar types with zero divisors",
 "Tests compare printed results of single evaluation routes; confluence and irreducibility quantify over all routes and all words.",
 [E+"expression.hpp", E+"monomial.hpp", "include/libcommute/scalar_traits.hpp"],
 [("normal ordering + power reduction", E+"expression.hpp"), ("map keyed by monomials with zero erasure", E+"expression.hpp store_monomial, operator+=, operator-=")],
 ["expression ==, get_monomials(), monomial::is_ordered()"])

prop("C03", "Expression arithmetic is exact polynomial arithmetic in every operator form",
 "Addition, subtraction, multiplication, unary minus and all their scalar variants (prefix, postfix, compound, mixed scalar types, converting construction and assignment) act on an expression exactly as the corresponding operations on a map from monomials to coefficients, and every form of one operation (a += b versus a + b, a - s versus -(s - a), and so on) gives the same expression. No history of such operations makes an expression drift from that reference.",
 ["histories", "inputs", "configurations"], "all operation sequences up to a depth over small pools of expressions and scalars, for int, double, complex, rational and custom scalars and mixed pairs",
 "Each operator form is a separate implementation (over twenty), and tests exercise each form once on one pair; cancellations, constants and missing-term cases interact with histories.",
 [E+"expression.hpp", "include/libcommute/scalar_traits.hpp"],
 [("operator implementations per scalar-type relation", E+"expression.hpp add_impl/sub_impl/mul_const_*_impl/add_const_*_impl"), ("compound assignment dispatch", "include/libcommute/scalar_traits.hpp *_assign")],
 ["public operators of expression", "iteration over monomials"])

prop("C04", "Hermitian conjugation is an antilinear involutive anti-automorphism",
 "For every expression, conjugating twice gives the expression back, conj(A*B) = conj(B)*conj(A), conj(A+B) = conj(A)+conj(B), coefficients are complex conjugated, and the matrix of conj(A) is the conjugate transpose of the matrix of A. The 'plus Hermitian conjugate' placeholder adds or subtracts exactly conj(A).",
 ["inputs"], "all words up to a length bound over every algebra with complex coefficients, all pairs of short expressions, expressions with vanishing coefficients",
 "Tests conjugate a handful of expressions; per-generator mistakes or state carried between monomials show up only on particular monomial lists.",
 [E+"expression.hpp", E+"hc.hpp", E+"generator_spin.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp"],
 [("reversal and per-generator conjugation", E+"expression.hpp conj"), ("hc placeholder", E+"hc.hpp")],
 ["conj(), + hc, - hc"])

prop("C05", "Expressions are independent values; operands survive every operation",
 "Copies, converted copies and moved-to expressions never share observable state, binary operators leave both operands unchanged, and using an expression (or one of its own coefficients) as the argument of its own compound assignment gives the mathematically expected result. A multiplication that throws because a constant is not representable in the scalar type leaves its operands unchanged.",
 ["histories", "inputs"], "all short histories over a pool of registers with copy, move, convert, self-operand and own-coefficient operations, checked against a value-semantics model after every step",
 "Aliasing patterns (x -= x, x *= x, x *= coefficient of x) and moved-from states do not occur in the tests; the result depends on the iteration order of the aliased container.",
 [E+"expression.hpp", E+"monomial.hpp", E+"hc.hpp"],
 [("map mutation while iterating the argument", E+"expression.hpp operator+=, operator-=, operator*="), ("shared immutable generators", E+"monomial.hpp")],
 ["register contents after each operation"])

prop("C06", "Generators, monomials, spaces and index sequences are strictly totally ordered",
 "On any set of generators (built-in or mixed with user-defined ones), monomials, elementary spaces and dynamic index sequences, exactly one of a<b, a==b, b<a holds, < is transitive, > mirrors <, and != negates ==; monomials compare by length first and then lexicographically, generators by algebra, then by the documented rule of their algebra. Consequently the monomial order inside an expression and the order of spaces in a Hilbert space are deterministic.",
 ["inputs"], "all pairs and triples of an exhaustive domain of small generators, monomials, elementary spaces and index sequences",
 "Tests order one hand-written sorted list; totality and transitivity quantify over all pairs and triples.",
 [E+"generator.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"monomial.hpp", E+"dyn_indices.hpp", L+"elementary_space.hpp", L+"elementary_space_spin.hpp"],
 [("per-algebra less/greater/equal", E+"generator_*.hpp"), ("length-then-lexicographic comparison", E+"monomial.hpp, "+E+"dyn_indices.hpp")],
 ["comparison operators, std::sort/std::map behaviour"])

prop("C07", "Index types are labels only: static, dynamic and mixed indices agree",
 "Replacing generator indices by any order-preserving relabelling into other index types (integers, strings, tuples of mixed types, dynamic index sequences of differing length) maps every computed expression, Hilbert space and operator matrix onto the correspondingly relabelled one.",
 ["inputs", "configurations"], "all words and short arithmetic histories over an index set, for every supported kind of index tuple",
 "Tests for dynamic indices repeat a subset of constructions; the agreement of the two worlds over arbitrary words and spaces is never compared.",
 [E+"dyn_indices.hpp", E+"factories.hpp", E+"factories_dyn.hpp", E+"generator.hpp", "include/libcommute/utility.hpp"],
 [("index tuples and dyn_indices_generic", E+"dyn_indices.hpp"), ("factory functions per index world", E+"factories*.hpp")],
 ["canonical forms, Hilbert space layout and matrix elements after relabelling"])

prop("C08", "Printing, iteration and transform expose exactly the stored polynomial",
 "The printed text of an expression, generator or monomial determines it completely: parsing the text according to the documented notation gives back (for index strings without commas and parentheses, and as far as the stream's precision shows the coefficients) the same coefficients, generators, indices and powers, in the stored order. Iterating forwards or backwards visits every monomial and every generator in it exactly once, and transform() applies its function to every term, dropping exactly the terms whose new coefficient is zero.",
 ["inputs"], "all expressions with up to a bounded number of terms over all short canonical monomials of the three algebras and several index kinds",
 "Tests compare a few printed strings; adjacent powers, empty index lists and multi-term outputs combine in ways samples miss.",
 [E+"expression.hpp", E+"monomial.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", "include/libcommute/utility.hpp", E+"dyn_indices.hpp"],
 [("stream output with power grouping", E+"monomial.hpp operator<<"), ("proxy iterators", E+"expression.hpp, "+E+"monomial.hpp const_iterator"), ("transform", E+"expression.hpp")],
 ["operator<<, begin()/end()/rbegin(), transform()"])

prop("C09", "User-defined algebras are normal ordered by their own relations, faithfully",
 "For any user-defined algebra whose generators satisfy g1*g2 = c*g2*g1 + f(generators), with c any constant including 0 and f any linear function, optionally with product and power simplifications, products are rewritten to canonical form without changing their value in a faithful representation of the algebra. User-defined generators mix with predefined ones, commuting with all of them.",
 ["inputs", "programs"], "all words up to a length bound over several user-defined algebras (Clifford, Virasoro-like, exchange relations with c = 0, power-truncated, q-commuting), alone and mixed with fermions",
 "The tests define two algebras and check single products; the contract between relations and the rewriting engine is quantified over algebras and words.",
 [E+"expression.hpp", E+"generator.hpp", "include/libcommute/utility.hpp"],
 [("virtual swap_with/simplify_prod/reduce_power/conj protocol", E+"generator.hpp"), ("handling of c, constant and linear terms", E+"expression.hpp normalize_and_store, reduce_powers_and_store")],
 ["products of expressions over user-defined generators"])

prop("C10", "Exact scalar types stay exact and unrepresentable constants are refused",
 "With integer, rational and arbitrary-precision scalar types all results of expression arithmetic are exact, including the rational structure constants of spin algebras; results agree across all exact and floating scalar types wherever the value is representable. Whenever a fractional or irrational constant is not representable in the scalar type, an exception is thrown instead of storing a rounded value.",
 ["inputs", "configurations"], "all words up to a length bound with every scalar type (int, long, boost rational, GMP integer/rational/float, double, complex, custom)",
 "Tests construct a few expressions per scalar type; which structure constants arise depends on the word and the spin.",
 ["include/libcommute/scalar_traits.hpp", "include/libcommute/scalars/gmpxx.hpp", "include/libcommute/scalars/boost_rational.hpp", "include/libcommute/utility.hpp", E+"generator_spin.hpp"],
 [("make_const from variant numbers", "include/libcommute/scalar_traits.hpp"), ("result-type traits", "include/libcommute/scalars/*.hpp"), ("variant number", "include/libcommute/utility.hpp var_number")],
 ["coefficients, thrown exceptions"])

prop("C11", "Factory functions build exactly the documented operators",
 "Every factory function (c, c_dag, n, a, a_dag, S_p, S_m, S_x, S_y, S_z for spin 1/2 and every other spin, real, complex and dynamic-index variants, and make_complex) returns the expression of its documented operator in terms of generators with exactly the given indices, conjugation flag, component and spin. Consistency relations between factories (n = c_dag*c, S_x = (S_p+S_m)/2, the su(2) and oscillator commutators, Casimir = S(S+1)) therefore hold for all indices and spins.",
 ["inputs", "configurations"], "all factories x all index tuples from a small domain x multiplicities 2..7 x real/complex/dynamic variants, and all pairs of results",
 "Tests check one index tuple per factory; the macro-generated variants differ per spin, scalar type and index world.",
 [E+"factories.hpp", E+"factories_dyn.hpp", E+"generator_spin.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp"],
 [("macro-generated factories", E+"factories.hpp, "+E+"factories_dyn.hpp"), ("make_generators", E+"generator_*.hpp")],
 ["returned expressions and their commutators"])

prop("C12", "Hilbert space layout is determined by its set of elementary spaces alone",
 "A Hilbert space built from a given set of elementary spaces has the same layout whatever the route (constructor arguments in any order, successive additions in any order, collection from any expression containing the corresponding generators): spaces sorted by algebra and index, contiguous bit ranges of ceil(log2(dimension)) bits starting at bit 0, positions, per-algebra ranges, dimension and vector size as documented. A copy or assigned-to space answers every query exactly like the original, including self-assignment, the original is unaffected, and two spaces compare equal exactly when they consist of the same elementary spaces, dimensions included.",
 ["histories", "inputs"], "all subsets and insertion orders of a pool of elementary spaces of all algebras and dimensions, all construction routes, all copy/move/assign histories of bounded length",
 "Tests build a few spaces in one order and never query copies completely.",
 [L+"hilbert_space.hpp", L+"elementary_space.hpp", L+"elementary_space_boson.hpp", L+"elementary_space_spin.hpp", L+"elementary_space_fermion.hpp", L+"es_constructor.hpp"],
 [("ordered map of spaces with bit ranges", L+"hilbert_space.hpp add/recompute_bit_ranges"), ("copy operations", L+"hilbert_space.hpp")],
 ["bit_range, algebra_bit_range, index, has, has_algebra, dim, vec_size, basis_state_index, foreach_elementary_space"])

prop("C13", "Enumerating a Hilbert space visits every valid basis state exactly once",
 "foreach() over a Hilbert space calls its functor with exactly the set of valid basis state indices (those whose every elementary component is below that space's dimension), each once and in increasing order, for dense and sparse spaces of any composition; the number of calls equals the reported dimension. Running enumerations of the same space in an interleaved or nested fashion does not change what each of them visits.",
 ["inputs", "schedules"], "all compositions of up to a bounded number of elementary spaces with dimensions 1..9 and beyond powers of two, all interleavings of two enumerations at callback granularity",
 "Tests enumerate two sparse spaces; the digit-carry logic depends on how dense and sparse groups alternate, and reentrancy is never exercised.",
 [L+"hilbert_space.hpp"],
 [("mixed-radix counter over merged sparse groups", L+"hilbert_space.hpp sparse_foreach_basis_state"), ("dense loop", L+"hilbert_space.hpp foreach")],
 ["sequence of indices passed to the functor"])

prop("C14", "Invalid Hilbert space requests are refused without corrupting the space",
 "Adding a duplicate space, exceeding 63 bits in total, or asking for an absent elementary space or algebra, an unconstructible generator or an invalid component index is reported by the documented exception for every space and every point of its history. After a refused request every query on the space answers as it did before the request.",
 ["histories", "fault_sequences"], "all short histories of valid and invalid requests over pools of elementary spaces that straddle the 63-bit limit",
 "Tests trigger each exception once on a fresh space and then drop the space.",
 [L+"hilbert_space.hpp", L+"es_constructor.hpp", L+"elementary_space_boson.hpp"],
 [("bound checks in add/recompute_bit_ranges", L+"hilbert_space.hpp"), ("exception types", L+"hilbert_space.hpp, "+L+"es_constructor.hpp")],
 ["exceptions, full query snapshot before/after"])

prop("C15", "Operator action equals the textbook matrix of the expression",
 "For every expression and every compatible Hilbert space, applying the linear operator to every basis state yields exactly the column of the textbook matrix: Jordan-Wigner signs in the documented mode order, bosonic square-root factors with truncation at the cutoff, spin ladder factors for any spin, tensor-product structure and coefficients included. Elementary spaces not mentioned by the expression act as the identity, wherever their bits lie.",
 ["inputs"], "all monomials up to a length bound over each algebra and all mixed monomials over spaces with up to 4 elementary factors, applied to every basis state; modes at every bit position including beyond bit 31; boson dimensions beyond internal tables",
 "Tests compare selected monomials on small spaces starting at bit 0; signs and factors depend on bit positions, masks and repetition patterns.",
 [L+"loperator.hpp", L+"monomial_action.hpp", L+"monomial_action_fermion.hpp", L+"monomial_action_boson.hpp", L+"monomial_action_spin.hpp", L+"bit_ops.hpp"],
 [("bitmask and sign computation", L+"monomial_action_fermion.hpp"), ("sqrt tables and shift products", L+"monomial_action_boson.hpp"), ("ladder products", L+"monomial_action_spin.hpp")],
 ["loperator::operator() on basis states"])

prop("C16", "Applying an operator is linear, overwrites its output and never touches input",
 "The in-place form writes exactly the operator applied to the source into the destination regardless of what the destination contained, the value-returning forms agree with it, the source is unchanged, and the action is linear in the state for every number type of operator and state (real, complex, mixed). Copies, moves and assignments of operators act like the original.",
 ["inputs", "histories"], "all pairs of operators from a pool and states from a small coefficient grid, with dirty destinations, all call forms and scalar combinations",
 "Tests apply operators to fresh destinations and mostly to single basis states.",
 [L+"loperator.hpp", L+"state_vector.hpp"],
 [("zero-then-accumulate", L+"loperator.hpp act_impl"), ("element update helpers", L+"state_vector.hpp")],
 ["destination and source vectors after each call"])

prop("C17", "Operators represent the algebra: products, sums, adjoints commute with action",
 "The operator built from A*B acts like the operator of A applied after that of B, the operator of A+B like the sum, the operator of a scalar multiple like the multiple, and the matrix of the conjugate expression is the conjugate transpose; for bosons products agree on all states that stay below the truncation. Operators built in any Hilbert space that contains the needed elementary spaces agree on the common factor.",
 ["inputs"], "all pairs of short words over mixed alphabets and several Hilbert spaces, on all basis states",
 "This is the cross-check between the symbolic half and the numeric half; tests examine the two halves separately.",
 [E+"expression.hpp", L+"loperator.hpp", L+"monomial_action.hpp", L+"hilbert_space.hpp"],
 [("symbolic normal ordering", E+"expression.hpp"), ("monomial actions", L+"monomial_action_*.hpp")],
 ["dense matrices extracted from loperator"])

prop("C18", "Parametric operators equal substitution of parameters into coefficients",
 "For every argument list, acting with a parametric operator, acting with stored coefficients, and acting with its instantiated copy all give the result of first substituting the arguments into every coefficient and then acting with the ordinary operator. This holds for any argument types and value categories, any number of arguments, reused coefficient storage of any prior size, and in any order of calls.",
 ["inputs", "histories"], "all call histories of bounded length over call forms, argument sets (including moved-in and by-value class arguments) and operators with 0..4 monomials",
 "Tests call each form once with trivially copyable lvalue arguments.",
 [L+"loperator.hpp"],
 [("coefficient evaluation and storage", L+"loperator.hpp parametric_loperator")],
 ["output vectors, stored coefficients, at()"])

prop("C19", "Operators accept exactly what their algebras and space support",
 "Building an operator succeeds exactly when every generator of the expression belongs to a supported algebra and has its elementary space in the Hilbert space; otherwise the documented exception is thrown. An operator restricted to any superset of the algebras that occur acts identically to the full one, and user-defined algebras plug in with the same semantics.",
 ["inputs", "configurations"], "all monomials up to length 3 over pools of known, absent and foreign generators x all subsets of algebra lists x all sub-spaces",
 "Tests try a few unknown generators in first position; rejection must not depend on position or on the other factors.",
 [L+"loperator.hpp", L+"monomial_action.hpp", L+"monomial_action_fermion.hpp", L+"monomial_action_boson.hpp", L+"monomial_action_spin.hpp"],
 [("splitting monomials into per-algebra ranges", L+"monomial_action.hpp"), ("unknown_generator", L+"monomial_action.hpp")],
 ["exceptions and matrices"])

prop("C20", "All state vector types behave as the same array of amplitudes",
 "Reading an element, adding to an element, zeroing, making a zero vector and iterating over non-zero elements behave identically for every supported state vector type (standard vector, sparse vector, Eigen vectors, segments, blocks and maps, and const versions), agreeing with a plain map of amplitudes after every history of operations. Operators acting on any combination of source and destination types give the same amplitudes, the sparse vector reports exactly its non-zeros, and pruning removes exactly what it should.",
 ["histories", "configurations"], "all operation histories of bounded length per container type over small sizes and a value alphabet with cancellations; all type pairs for operator action",
 "Tests call each function once per type.",
 [L+"state_vector.hpp", L+"sparse_state_vector.hpp", L+"state_vector_eigen3.hpp"],
 [("StateVector concept functions", L+"state_vector*.hpp"), ("erase-on-zero map", L+"sparse_state_vector.hpp")],
 ["get_element, update_add_element, set_zeros, zeros_like, foreach, n_nonzeros, prune"])

prop("C21", "Compressed views number the valid basis states 0..dim-1 in order",
 "A compressed view of any Hilbert space maps the valid basis states onto 0..dim-1 bijectively and in increasing order, and iteration reports the original indices, so that operators acting through compressed views give the same amplitudes as on full-size vectors. Reading, updating, zeroing, creating zero vectors, owning or referencing storage, and copying views behave as documented.",
 ["inputs", "histories"], "all sparse and dense compositions of a bounded number of spaces, every basis state, all short histories of view operations",
 "Tests use two spaces; the index arithmetic depends on how non-power-of-two spaces are grouped between dense ones.",
 [L+"compressed_state_view.hpp", L+"hilbert_space.hpp"],
 [("merged group strides and bit masks", L+"compressed_state_view.hpp map_index")],
 ["map_index, get_element, foreach, operator action"])

prop("C22", "Mapped basis views and basis mappers translate indices exactly",
 "A mapped basis view reads, writes and iterates precisely the amplitudes its index map selects and refuses unmapped indices with the documented exception; operators acting within an invariant subspace through views give the block of the full matrix. A basis mapper built from a list maps each listed state to its position; one built from an operator or from compositions of N operators contains exactly the basis states those operators reach from the vacuum, numbered contiguously.",
 ["inputs", "histories"], "all injective maps on small index sets, all short operation histories, all operator lists from a pool with N up to 4",
 "Tests use one map and one fermion/boson composition.",
 [L+"mapped_basis_view.hpp"],
 [("unordered map lookup", L+"mapped_basis_view.hpp"), ("recursive composition enumeration", L+"mapped_basis_view.hpp basis_mapper")],
 ["get_element, update_add_element, foreach, basis_mapper::map/inverse_map/size"])

prop("C23", "N-fermion sector indexing is a bijection consistent with its enumeration",
 "For every Hilbert space (purely fermionic or mixed with other non-sparse spaces), every particle number and every ranking algorithm and chunk size, the sector size, the list of sector basis states and the index map agree: the list holds exactly the basis states with N fermions, each once, and the map sends each to its position in the list. Views over the sector read, write and iterate the right amplitudes, and operators acting through them reproduce the sector block.",
 ["inputs", "configurations"], "all mode counts M up to a bound and all N, with all compositions of extra spaces, all ranking algorithms with several chunk sizes, every sector state; large M at selected extreme patterns",
 "Tests run a few (M,N) pairs; edge chunks, hole-counting for N > M/2 and pattern positions depend on M mod R and on N.",
 [L+"n_fermion_sector_view.hpp", L+"bit_ops.hpp"],
 [("ranking and unranking algorithms", L+"n_fermion_sector_view.hpp"), ("particle-hole choice", L+"n_fermion_sector_view.hpp n_fermion_sector_params_t")],
 ["map_index, n_fermion_sector_size, n_fermion_sector_basis_states, foreach, operator action"])

prop("C24", "Multisector indexing is a bijection consistent with its enumeration",
 "For every choice of disjoint sets of fermionic modes (possibly interleaved, in any order, not covering all modes, in a space with other degrees of freedom) and particle numbers, the multisector size, its list of basis states and its index map agree: the list holds exactly the basis states with the prescribed occupation of every set, each once, and the map sends each to its position. Overlapping sets, foreign indices and impossible particle numbers are handled as documented, and views over the multisector read, write and iterate the right amplitudes.",
 ["inputs", "configurations"], "all assignments of up to 6 modes to up to 3 sets or none, all particle numbers, extra spin/boson bits, all ranking algorithms; modes beyond bit 31",
 "Tests run a few set choices on one space.",
 [L+"n_fermion_sector_view.hpp", L+"bit_ops.hpp"],
 [("per-sector extraction masks and mixed-radix combination", L+"n_fermion_sector_view.hpp n_fermion_multisector_view"), ("multisector unranking", L+"n_fermion_sector_view.hpp")],
 ["map_index, n_fermion_multisector_size, n_fermion_multisector_basis_states, foreach, exceptions"])

prop("C25", "Views and operators stay valid when copied, moved, nested or run concurrently",
 "A copied or moved view or Hilbert space gives the same results as the original, also after the original is gone, and constant objects can be used by several computations at once: any interleaving or nesting of read-only traversals and operator applications on shared constant objects gives each of them its sequential result.",
 ["schedules", "histories"], "all interleavings (at callback granularity) of two traversals of one shared object for every view and space type; all copy/move/destroy histories of bounded length",
 "No test uses two traversals of one object or a copy after its source was destroyed.",
 [L+"n_fermion_sector_view.hpp", L+"compressed_state_view.hpp", L+"mapped_basis_view.hpp", L+"hilbert_space.hpp", L+"loperator.hpp"],
 [("iteration state kept inside const objects", L+"hilbert_space.hpp, "+L+"compressed_state_view.hpp, "+L+"n_fermion_sector_view.hpp"), ("references kept by generators of basis states", L+"n_fermion_sector_view.hpp")],
 ["sequences delivered to callbacks, operator results"])

prop("C26", "Space partition yields exactly the connected blocks of the Hamiltonian",
 "For every Hermitian operator and Hilbert space, two basis states are in the same subspace exactly when a chain of non-zero matrix elements connects them; subspace numbers run contiguously from 0, the subspace bases are disjoint, list each valid basis state once and agree with the per-state lookup. If matrix elements are requested, exactly the non-zero ones are returned with the right values, and the partition does not depend on whether they were requested.",
 ["inputs"], "all Hermitian operators formed from subsets of a pool of hopping/interaction/spin/boson terms over several dense and sparse spaces; generic sparse matrices on small spaces",
 "Tests partition three models; merging order depends on the graph of matrix elements.",
 [L+"space_partition.hpp", L+"disjoint_sets.hpp"],
 [("union of source and target states", L+"space_partition.hpp constructor"), ("disjoint sets", L+"disjoint_sets.hpp")],
 ["operator[], n_subspaces, subspace_basis, subspace_bases, foreach, returned matrix elements"])

prop("C27", "Merging makes the operator pair connect subspaces one-to-one, minimally",
 "After merging with an operator and its conjugate, each of the two connects every subspace to at most one subspace and no two subspaces to the same one; subspaces are only ever unions of the earlier ones and no coarser than necessary for that. Returned matrix elements are exactly the non-zero matrix elements of both operators, and further merges preserve what earlier merges established.",
 ["inputs", "histories"], "all pairs/sequences of ladder operators from pools (including operators that connect a subspace to several others) over all partitions obtained from a family of Hamiltonians",
 "Tests merge with electron operators of two models only; the order in which connections are discovered and merged matters.",
 [L+"space_partition.hpp", L+"disjoint_sets.hpp"],
 [("merging conjugate connection targets", L+"space_partition.hpp merge_subspaces")],
 ["n_subspaces, operator[], find_connections, returned matrix elements"])

prop("C28", "Connections between subspaces are reported exactly",
 "For every operator and every partition the reported set contains (source, destination) exactly when some matrix element of the operator leads from a state of the source subspace to a state of the destination subspace, including diagonal ones; cancellations between monomials do not produce spurious entries. Reporting does not modify the partition.",
 ["inputs", "histories"], "all operators from a pool (including sums with cancelling matrix elements) on all partitions of a family, before and after merges",
 "Tests check the electron operators of one model.",
 [L+"space_partition.hpp"],
 [("scan of all basis states", L+"space_partition.hpp find_connections")],
 ["find_connections result vs dense matrix"])

prop("C29", "Disjoint sets implement an equivalence relation with stable numbering",
 "After any history of creations, unions, root queries, compressions and normalisations, two elements share a root exactly when the unions connect them, the number of sets and of elements is right, the union reports the surviving root, and after normalisation every representative is the smallest member of its set. Root queries and compressions never change the relation.",
 ["histories"], "all operation histories up to a depth over up to 5 elements, plus all union sequences up to a length",
 "Tests run one fixed history; correctness depends on the shape of the internal forest, which depends on the whole history.",
 [L+"disjoint_sets.hpp"],
 [("parent/rank forest with path compression", L+"disjoint_sets.hpp")],
 ["find_root, in_same_set, n_sets, size, set_union, root_union"])

prop("C30", "Bit-pattern primitives are correct for all patterns in every build configuration",
 "Counting set bits and trailing zeros, rounding up to a power of two, and depositing or extracting bits under a mask agree with their definitions for every pattern and width, whichever implementation the compiler and target select (portable, compiler builtin, or dedicated instruction); all results of the library are the same in all those configurations.",
 ["inputs", "configurations"], "all patterns and masks up to a width, sliding windows and extreme patterns over the full 64-bit range, in portable, builtin and BMI2 builds, C++11 to C++20",
 "Tests run one configuration with random or few patterns.",
 [L+"bit_ops.hpp"],
 [("conditional implementations", L+"bit_ops.hpp")],
 ["return values; operator matrices per configuration"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
