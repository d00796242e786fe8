#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Kept in the tree so the file stays editable."""
import json, os
I = "include/libcommute/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Concurrent read-only use of shared objects is safe and exact",
  "Any number of threads may simultaneously apply non-modifying operations (evaluating, multiplying, conjugating, printing, comparing or iterating expressions; querying and traversing Hilbert spaces, space partitions, basis mappers and state views; applying operators to vectors) to the same library objects without any synchronisation by the caller. No two of these calls ever make conflicting unsynchronised accesses to the same memory, and each call returns exactly what it would have returned had it been the only one running.",
  ["schedules", "programs"],
  "All interleavings of 2-4 threads running any sequence of const operations on shared objects of every public kind.",
  "The tests are single-threaded; data races through hidden mutable state depend on the schedule.",
  ["loperator/hilbert_space.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/compressed_state_view.hpp", "loperator/mapped_basis_view.hpp", "loperator/space_partition.hpp", "loperator/disjoint_sets.hpp", "loperator/loperator.hpp", "loperator/monomial_action_boson.hpp", "expression/expression.hpp", "expression/monomial.hpp", "expression/generator.hpp"],
  [("const member functions without (written) mutable state", I + "loperator"), ("immutable generators shared through std::shared_ptr<const generator>", I + "expression/monomial.hpp"), ("path compression completed before the partition is published", I + "loperator/space_partition.hpp")],
  ["results returned to every thread", "memory accesses made by every thread"],
  [("disjoint_sets::parents_", "mutable, compressed eagerly", I + "loperator/disjoint_sets.hpp")])

p("C02", "Threads working on their own objects never influence each other",
  "Threads that each create, modify, combine, copy and destroy their own expressions, Hilbert spaces, operators, state vectors and views never affect one another, even when those objects were copied from common originals and therefore share algebra generators internally. Every thread obtains exactly the results of a solitary run, there are no conflicting unsynchronised accesses behind the scenes, and every shared part is released exactly once, by whichever thread drops it last.",
  ["schedules", "programs", "fault_sequences"],
  "All interleavings of 2-4 threads running any sequence of modifying operations on thread-private objects descending from common ancestors, including threads whose operations fail.",
  "The tests are single-threaded; hidden global or shared state only shows under particular interleavings.",
  ["expression/monomial.hpp", "expression/expression.hpp", "expression/generator.hpp", "loperator/hilbert_space.hpp", "loperator/loperator.hpp", "loperator/sparse_state_vector.hpp", "loperator/space_partition.hpp"],
  [("no namespace-scope or function-local mutable state", I), ("atomic reference counting of shared generators", I + "expression/monomial.hpp"), ("Hilbert spaces deep-copied through clone()", I + "loperator/hilbert_space.hpp")],
  ["results returned to every thread", "memory accesses, frees made by every thread"])

p("C03", "Traversals may be nested, interleaved and abandoned at any point",
  "A traversal of a Hilbert space, state vector, state view, space partition, expression or monomial whose callback starts further traversals or operator applications on the very same objects, or abandons the traversal by throwing, still behaves as if it were alone. Every traversal that runs to completion visits every entry it promises (every basis state, or every non-zero amplitude) exactly once, with the right index and value and in the documented order, no matter what other traversals of the same objects are in progress or were abandoned before it.",
  ["schedules", "histories", "fault_sequences"],
  "All nesting structures and abandonment points of traversals over dense and sparse Hilbert spaces, vectors, all four kinds of views, partitions and expressions.",
  "The tests only run complete, non-nested traversals, each on a fresh object.",
  ["loperator/hilbert_space.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/compressed_state_view.hpp", "loperator/mapped_basis_view.hpp", "loperator/sparse_state_vector.hpp", "loperator/state_vector.hpp", "loperator/space_partition.hpp", "expression/expression.hpp", "expression/monomial.hpp"],
  [("traversal cursors local to the call", I + "loperator/hilbert_space.hpp"), ("state generators constructed per call", I + "loperator/n_fermion_sector_view.hpp")],
  ["sequence of (index, value) pairs handed to each callback"])

p("C04", "Interrupted expression arithmetic corrupts nothing",
  "When an operation on expressions is cut short at an arbitrary point, because memory ran out or user-supplied code (a coefficient's arithmetic, a generator's commutation rule or comparison) threw, every operand other than the target keeps its value, the target of an in-place multiplication by an expression keeps its former value, and the target of any other in-place operation remains a well-formed canonical expression in which each term has either its old or its new coefficient (after an assignment it may also be absent). All later operations, including repetition of the failed one, give exactly the results the algebra prescribes.",
  ["fault_sequences", "histories", "inputs"],
  "All histories of constructions, copies, assignments, sums, differences, products, conjugations, transformations and scalar operations, with failures at any allocation or user-code call inside any of them.",
  "The tests never make an allocation or a user-supplied operation fail, and sample a handful of fixed expressions.",
  ["expression/expression.hpp", "expression/monomial.hpp", "expression/generator.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp", "expression/hc.hpp", "utility.hpp"],
  [("products accumulated in a separate map swapped in at the end", I + "expression/expression.hpp"), ("coefficients updated term by term", I + "expression/expression.hpp"), ("immutable generators", I + "expression/generator.hpp")],
  ["operands before/after each operation", "action of results on test states of an exact representation"])

p("C05", "A failed change leaves a Hilbert space exactly as it was",
  "If adding an elementary space, copying, assigning or constructing a Hilbert space fails - because the space is already there, the product would not fit into the index type, memory ran out, or a user-supplied elementary space or its factory threw - every existing Hilbert space is left exactly as before the attempt. After any history of successful and failed changes, copies, moves and assignments, a Hilbert space answers every query (membership, index, dimensions, bit ranges, algebra ranges, sizes, state enumeration, equality, and everything built on it) like one built directly from the same elementary spaces.",
  ["fault_sequences", "histories"],
  "All histories of construction, add, copy, move, assignment and self-assignment over predefined and user-defined elementary spaces, with failures at any point.",
  "The tests check each exception once on a throw-away object and never look at the object afterwards.",
  ["loperator/hilbert_space.hpp", "loperator/elementary_space.hpp", "loperator/elementary_space_boson.hpp", "loperator/elementary_space_fermion.hpp", "loperator/elementary_space_spin.hpp", "loperator/es_constructor.hpp"],
  [("copy-and-move in add() and assignment", I + "loperator/hilbert_space.hpp"), ("bit ranges recomputed from the ordered product", I + "loperator/hilbert_space.hpp")],
  ["all queries of the Hilbert space", "foreach(hs, f)", "operators and views built over it"])

p("C06", "An interrupted operator application can simply be repeated",
  "If applying an operator (with constant or parameter-dependent coefficients) to a state is cut short at any point by an exhausted allocator, a throwing coefficient, scalar operation or state-vector access, the operator, the source state and the evaluation machinery are unaffected. Repeating the call with the same or a different destination gives exactly the result of an uninterrupted application, namely the operator's matrix times the source vector, regardless of what the destination or a reused coefficient buffer held before and of how many applications failed, nested or interleaved.",
  ["fault_sequences", "histories", "inputs"],
  "All sequences of applications of constant and parametric operators over fermions, bosons and spins to dense, sparse, user-defined and adapted vectors, with failures at any point.",
  "The tests apply each operator to fresh destinations and never interrupt an application.",
  ["loperator/loperator.hpp", "loperator/monomial_action.hpp", "loperator/monomial_action_fermion.hpp", "loperator/monomial_action_boson.hpp", "loperator/monomial_action_spin.hpp", "loperator/state_vector.hpp", "loperator/sparse_state_vector.hpp"],
  [("destination zeroed at the start of each application", I + "loperator/loperator.hpp"), ("coefficients evaluated into a cleared buffer", I + "loperator/loperator.hpp")],
  ["destination vector after each successful call", "source vector and operator after each failed call"])

p("C07", "Space partitions survive interrupted construction and merging",
  "A space partition always assigns every basis state of its Hilbert space to exactly one subspace, numbered contiguously in the order of first appearance: initially it is the finest partition closed under the Hamiltonian, and each completed merge turns it into its finest coarsening in which the given operator pair connects every subspace to at most one other. A construction or merge cut short by a failure (allocation, scalar arithmetic) leaves every existing partition as it was, so that the request can be repeated, and the connections and matrix elements reported by completed calls are exactly the non-vanishing ones.",
  ["fault_sequences", "histories", "inputs"],
  "All Hamiltonians and sequences of merged operator pairs on dense and sparse Hilbert spaces, with failures at any point of construction and merging.",
  "The tests partition two fixed models once, without failures or repeated merges.",
  ["loperator/space_partition.hpp", "loperator/disjoint_sets.hpp"],
  [("disjoint-set forest with union by rank", I + "loperator/disjoint_sets.hpp"), ("fixpoint iteration over connections", I + "loperator/space_partition.hpp"), ("work on a copy, publish at the end", I + "loperator/space_partition.hpp")],
  ["operator[]", "n_subspaces()", "subspace_basis(), subspace_bases()", "find_connections()", "returned matrix elements"])

p("C08", "Failures leak nothing and release nothing twice",
  "Whatever operation fails and at whatever point, once the objects taking part in it are destroyed all memory and all user-supplied scalar, index, generator and elementary-space objects created on the way have been released exactly once. Repeating any workload with any pattern of failures does not make the amount of live memory or the number of live user objects grow.",
  ["fault_sequences", "programs"],
  "All workloads over expressions, Hilbert spaces, operators, partitions, vectors, views and printing, with failures at any allocation or user-code call.",
  "The tests never make anything fail, so no unwinding path is executed.",
  ["expression/expression.hpp", "expression/monomial.hpp", "expression/generator.hpp", "loperator/hilbert_space.hpp", "loperator/elementary_space.hpp", "loperator/es_constructor.hpp", "loperator/space_partition.hpp", "loperator/mapped_basis_view.hpp", "loperator/loperator.hpp"],
  [("RAII ownership: std::shared_ptr generators, std::unique_ptr elementary spaces, standard containers", I)],
  ["live allocations and live user objects after each workload"])

p("C09", "Printing to a failing or slow stream is honest and harmless",
  "Printing an expression, monomial, generator or index sequence to a stream that fails, throws or accepts only part of the data at an arbitrary point puts nothing but a prefix of the complete text into the stream, and the failure remains visible in the stream's state or as the stream's exception. It leaves the printed object and the stream's formatting settings unchanged, and printing again to a healthy stream produces the complete text, which depends only on the object's value and the stream's formatting settings.",
  ["fault_sequences", "inputs"],
  "All printable objects, all failure positions and chunk sizes of the underlying stream buffer, all stream exception masks and formatting states.",
  "The tests print to healthy string streams only.",
  ["expression/expression.hpp", "expression/monomial.hpp", "expression/generator.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp", "expression/dyn_indices.hpp", "utility.hpp"],
  [("plain formatted insertion into the caller's stream", I + "expression/expression.hpp"), ("to_string() of generators", I + "expression/generator.hpp")],
  ["bytes accepted by the stream buffer", "stream state, exceptions and format flags"])

p("C10", "Results do not depend on memory layout or leftover contents",
  "Every observable result - canonical forms, their term order, equality and ordering of objects, printed text, Hilbert space layout, operator action, partitions, view contents - is determined by the sequence of operations alone. It never depends on where the allocator places objects, in which relative order addresses are handed out, or on what freshly allocated or stack memory held before.",
  ["configurations", "programs", "inputs"],
  "All allocator placements (ascending, descending, shuffled, immediately reused addresses) and all initial contents of fresh memory, for all workloads.",
  "Each test run sees one allocator and mostly zeroed memory, so that uninitialised reads and address-dependent orderings are masked.",
  ["expression/expression.hpp", "expression/monomial.hpp", "expression/generator.hpp", "loperator/hilbert_space.hpp", "loperator/monomial_action_fermion.hpp", "loperator/monomial_action_boson.hpp", "loperator/monomial_action_spin.hpp", "loperator/space_partition.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/compressed_state_view.hpp"],
  [("comparison of generators, monomials and elementary spaces by value", I + "expression/generator.hpp"), ("all members initialised before use", I)],
  ["event log of a workload under different allocators"])

p("C11", "Errors raised inside library calls reach the caller intact",
  "An error raised by user-supplied code (scalar arithmetic, generator rule, elementary space or its factory, coefficient function, state-vector access, traversal callback) or by the allocator during a library call is delivered to the caller of that call as the very same error - never swallowed, replaced by a different one, reported by terminating the program, or turned into a wrong result. Errors the library itself raises (duplicate, missing or oversized elementary spaces, unknown generators, non-existing sectors, indices outside a mapping) are of the documented type, describe the offending item, and stay valid after all objects involved are gone.",
  ["fault_sequences", "programs"],
  "All library entry points that call user code or allocate, all failure points inside them, and all misuse the library documents as an error.",
  "The tests never throw from user-supplied code, and check library errors only while all objects are alive.",
  ["expression/expression.hpp", "loperator/hilbert_space.hpp", "loperator/es_constructor.hpp", "loperator/monomial_action.hpp", "loperator/loperator.hpp", "loperator/space_partition.hpp", "loperator/mapped_basis_view.hpp", "loperator/n_fermion_sector_view.hpp", "scalar_traits.hpp"],
  [("exception neutrality: no catch clauses", I), ("exception objects own clones / shared pointers of the offending item", I + "loperator/hilbert_space.hpp")],
  ["type and identity of the exception caught by the caller", "payload of library exceptions after destruction of sources"])

p("C12", "Objects own what they need: copies, moves, destruction in any order",
  "Copies and moved-to objects of every kind (expressions, monomials, Hilbert spaces, operators, partitions, mappers, vectors, views) have the full value of the original and remain usable and unchanged after the original is modified, reassigned or destroyed, in any order; self-assignment and self-referential in-place operations are well defined. The only lifetimes a user has to respect are the documented ones: a view adapting a vector by reference needs that vector, a mapped view needs its mapper, and a partition needs its Hilbert space.",
  ["histories", "programs"],
  "All histories of copying, moving, assigning, self-assigning, modifying and destroying interrelated objects in any order.",
  "The tests keep all sources alive until the end of the scope and rarely modify an original after copying it.",
  ["expression/expression.hpp", "expression/monomial.hpp", "loperator/hilbert_space.hpp", "loperator/loperator.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/compressed_state_view.hpp", "loperator/mapped_basis_view.hpp", "loperator/space_partition.hpp", "loperator/sparse_state_vector.hpp"],
  [("value semantics", I), ("shared ownership of generators", I + "expression/monomial.hpp"), ("deep copies of elementary spaces", I + "loperator/hilbert_space.hpp")],
  ["value of every live object after each step", "accesses to released memory"])

p("C13", "State vectors and views act as exact storage under any history",
  "Sparse state vectors and the views adapting vectors (compressed, mapped, N-fermion sector and multisector, by reference or by value) behave as exact storage: after any history of updates, element access, zeroing, pruning, traversals and failed updates, every amplitude is the one the completed updates imply, each basis state addresses one slot of its own within the advertised size, and a failed update leaves all amplitudes as they were. Amplitudes that vanish through updates are not stored or reported.",
  ["histories", "fault_sequences", "inputs"],
  "All histories of vector and view operations over all kinds of Hilbert spaces and sectors, with failures at any allocation, scalar operation or callback.",
  "The tests perform a few fixed updates on fresh vectors and no failing ones.",
  ["loperator/sparse_state_vector.hpp", "loperator/state_vector.hpp", "loperator/compressed_state_view.hpp", "loperator/mapped_basis_view.hpp", "loperator/n_fermion_sector_view.hpp"],
  [("hash map of non-zero amplitudes", I + "loperator/sparse_state_vector.hpp"), ("index translation map_index() / map.at()", I + "loperator/compressed_state_view.hpp")],
  ["get_element()", "foreach()", "n_nonzeros()", "the adapted vector"])

p("C14", "Basis maps and sector lists are built completely or not at all",
  "A completed construction of a basis map, a sector's basis-state list or a sector/compressed view enumerates exactly the basis states it is defined by, each once, with positions filling the range from zero contiguously, and the three agree with each other. A construction interrupted at any point by an allocation or scalar failure has no effect, and repeating it gives the same content as an uninterrupted one.",
  ["fault_sequences", "inputs", "histories"],
  "All Hilbert spaces, sectors, multisectors, generating operators and operator lists, with failures at any point of the construction.",
  "The tests build a few fixed maps and sectors without failures.",
  ["loperator/mapped_basis_view.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/compressed_state_view.hpp", "loperator/hilbert_space.hpp"],
  [("combination ranking and unranking", I + "loperator/n_fermion_sector_view.hpp"), ("recursion over compositions", I + "loperator/mapped_basis_view.hpp")],
  ["map(), inverse_map(), size()", "n_fermion_(multi)sector_basis_states(), _size()", "map_index()"])

# Pure functions of their input: listed, but not decidable by deterministic simulation.
p("N01", "Canonical form is unique and independent of how it was reached",
  "Two expressions built in any way are equal as operators of the predefined fermion, boson and spin-1/2 algebras if and only if they compare equal, and the stored monomials are sorted, simplified and have non-zero coefficients.",
  ["inputs"], "All expressions.", "The tests compare a few dozen products.",
  ["expression/expression.hpp", "expression/monomial.hpp"], [("bubble-sort normalisation", I + "expression/expression.hpp")])
p("N02", "Expressions form an associative algebra with involution",
  "Addition, multiplication and scalar multiplication of expressions satisfy the ring axioms, and Hermitian conjugation is an antilinear, product-reversing involution.",
  ["inputs"], "All expressions and scalars.", "The tests check identities on fixed expressions.",
  ["expression/expression.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp"], [("linear_function rules of generators", I + "expression/generator.hpp")])
p("N03", "Linear operators represent their expressions faithfully",
  "Applying the operator made from a product of expressions equals applying the operators of the factors in turn, up to the truncation of bosonic spaces.",
  ["inputs"], "All expressions, Hilbert spaces and states.", "The tests check fixed operators on fixed states.",
  ["loperator/loperator.hpp", "loperator/monomial_action.hpp"], [("generalised permutation matrices", I + "loperator/monomial_action.hpp")])
p("N04", "All ranking algorithms agree and invert unranking",
  "Combination, staggered and trie ranking map the states of an N-fermion sector to the same positions, in the order in which the states are enumerated.",
  ["inputs"], "All numbers of modes, particles and chunk sizes.", "The tests check a few mode numbers.",
  ["loperator/n_fermion_sector_view.hpp"], [("ranking classes", I + "loperator/n_fermion_sector_view.hpp")])
p("N05", "Static and dynamic index sequences are interchangeable",
  "Expressions written with statically typed and with dynamically typed index sequences of the same values have the same structure and algebra.",
  ["inputs"], "All index sequences.", "The tests check fixed sequences.",
  ["expression/dyn_indices.hpp", "expression/factories.hpp", "expression/factories_dyn.hpp"], [("lexicographic comparison of variants", I + "expression/dyn_indices.hpp")])
p("N06", "Mixed scalar types promote without loss",
  "Arithmetic between expressions and constants of different scalar types gives the same coefficients as converting the operands to the result type first; coefficients incompatible with a scalar type are rejected.",
  ["inputs"], "All pairs of scalar types and values.", "The tests check a few pairs.",
  ["scalar_traits.hpp", "expression/expression.hpp", "scalars/gmpxx.hpp", "scalars/boost_rational.hpp"], [("sum_res_t, diff_res_t, mul_res_t", I + "scalar_traits.hpp")])
p("N07", "Hardware and portable bit manipulation agree",
  "Counting, extracting and depositing bits gives the same results with and without hardware intrinsics, for all inputs and masks.",
  ["inputs", "configurations"], "All 64-bit inputs and masks.", "The tests check fixed values.",
  ["loperator/bit_ops.hpp"], [("portable fallbacks", I + "loperator/bit_ops.hpp")])
p("N08", "Numerically negligible coefficients are dropped, others are kept",
  "When floating-point coefficients or amplitudes cancel in a sum or difference, terms that end up below the tolerance of scalar_traits are removed from expressions and sparse vectors; terms above it are never dropped.",
  ["inputs"], "All floating-point coefficients.", "The tests check a few values.",
  ["scalar_traits.hpp", "expression/expression.hpp"], [("scalar_traits::is_zero", I + "scalar_traits.hpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
