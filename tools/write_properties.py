#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here, one place)."""
import json, os, sys

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

T = "include/TAT/"
S = "include/square/"

prop("P01", "Every tensor an operation returns is structurally well formed",
     "Whatever sequence of operations produced it, a tensor has one distinct name per edge with a consistent name lookup, holds exactly one data block for every combination of edge quantum numbers whose total charge is zero and no other block, and every block has exactly the number of elements its edge dimensions imply. No edge keeps a quantum number that no block uses.",
     ["inputs", "histories"], "all tensors of every symmetry and scalar type and all sequences of library operations over them",
     "The tests print or compare a few fixed tensors; they never walk long operation sequences or inspect the structure of every intermediate result.",
     [T + "core.hpp", T + "edge.hpp", T + "tensor.hpp", T + "edge_operator.hpp", T + "name.hpp"],
     [("block enumeration and pruning of unused quantum numbers in the core constructor", T + "core.hpp:Core::Core"),
      ("enumeration of zero-charge blocks", T + "edge.hpp:initialize_block_symmetries_with_check"),
      ("name uniqueness check", T + "name.hpp:check_valid_name")],
     ["names, edges and blocks of every tensor returned by a public operation"])

prop("P02", "Transposition moves every element exactly, with the fermion exchange sign",
     "Transposing a tensor to any order of its edge names yields a tensor in which every element of the original appears unchanged at the correspondingly permuted position. For fermionic symmetries the element is negated exactly when the permutation exchanges an odd number of pairs of odd-parity edges. This holds for every rank, shape and size, whatever memory-traversal strategy is used.",
     ["inputs", "configurations"], "all tensors (rank, dimensions including 0 and 1, sizes below and above every cache threshold), all permutations, all symmetries and scalar types",
     "The tests transpose a handful of tiny tensors and print them; the blocked/cache-sized and specialised inner loops are chosen by size and are rarely or never entered.",
     [T + "transpose.hpp", T + "edge_operator.hpp", T + "symmetry.hpp", T + "const_integral.hpp"],
     [("transpose planning and kernels", T + "transpose.hpp:do_transpose, simple_transpose, inturn_transpose"),
      ("transpose parity", T + "symmetry.hpp:get_transpose_parity")],
     ["elements of the result compared index by index with the operand"])

prop("P03", "Rename, split, reverse, merge and cut place each element and sign correctly",
     "Renaming, splitting, reversing, merging, cutting and reordering edges, in any combination and with any choice of which operations apply their fermionic sign, puts each element where the documented edge layout says and with the sign that choice prescribes. Merging edges and then splitting them back restores the original tensor. Elements outside a requested cut disappear and nothing else changes.",
     ["inputs", "programs"], "all tensors and all valid combined edge-operation requests, all parity options",
     "The tests exercise a few fixed merge/split calls with hand-written outputs; the combinations of parity options, arrows and several quantum numbers per edge form a space no example list covers.",
     [T + "edge_operator.hpp", T + "edge_miscellaneous.hpp", T + "symmetry.hpp"],
     [("combined edge operator", T + "edge_operator.hpp:Tensor::edge_operator"),
      ("merge and split wrappers", T + "edge_miscellaneous.hpp"),
      ("reverse and merge parity", T + "symmetry.hpp:get_reverse_parity, get_split_merge_parity")],
     ["elements, names, edges and arrows of the result compared with an independent element-wise model"])

prop("P04", "Bosonic contraction equals the mathematical sum over the common indices",
     "For tensors without symmetry or with a bosonic symmetry, contracting any set of paired edges gives, for every combination of the remaining indices, the sum over the paired indices of the products of elements, whatever the order of the edges in either operand, the number of paired edges or the scalar types. Quantum numbers present on only one side of a pair contribute nothing. Without symmetry, unpaired edges that carry the same name in both operands are kept once and multiplied elementwise.",
     ["inputs"], "all pairs of contractible tensors and all pairings (none, some, all edges), including empty and one-dimensional edges and mismatched quantum numbers",
     "Tests contract a few small tensors, mostly without symmetry or with a single paired edge; multi-edge contractions of symmetric tensors with several quantum numbers are not compared with any reference.",
     [T + "contract.hpp", T + "edge_operator.hpp"],
     [("contraction without shared names", T + "contract.hpp:contract_without_fuse"),
      ("batched contraction with shared names", T + "contract.hpp:contract_with_fuse")],
     ["elements and edges of the contraction result compared with a brute-force sum"])

prop("P05", "Fermionic contraction obeys one fixed sign rule independent of edge order",
     "For fermionic symmetries, contraction equals the sum over paired indices with the sign of bringing each pair next to each other, the first operand's edge to the left of the second's, times minus one for each odd pair whose left edge is not the outgoing-arrow (true) one. As a consequence the result does not depend on how the operands' edges are ordered beforehand, and contracting a network of several tensors gives the same value in every contraction order.",
     ["inputs", "histories"], "all fermionic tensors, all arrows, all pairings, all operand orders and all contraction orders of small networks",
     "Tests check a few fermionic contractions for fixed edge orders; sign errors only show for particular parities, arrows and layouts.",
     [T + "contract.hpp", T + "edge_operator.hpp", T + "symmetry.hpp"],
     [("sign bookkeeping in contraction", T + "contract.hpp:contract_without_fuse"),
      ("parities", T + "symmetry.hpp:fermi_symmetry")],
     ["elements of the result compared with a graded-algebra reference; networks contracted in different orders"])

prop("P06", "Trace equals the diagonal sum over every paired index",
     "Tracing any set of mutually conjugate edge pairs gives, for every combination of the remaining indices, the sum of the elements whose paired indices coincide, with the fermionic exchange sign of making each pair adjacent (outgoing-arrow edge first). It equals tracing the pairs one after another in any order, and the remaining edges keep their order.",
     ["inputs"], "all tensors with conjugate edge pairs, any number of pairs, any edge order, every symmetry and scalar type",
     "The tests compare a random single trace without symmetry; several pairs with several quantum numbers, fermionic arrows and complex types are not covered.",
     [T + "trace.hpp", T + "edge_operator.hpp"],
     [("trace through merged edges", T + "trace.hpp:Tensor::trace")],
     ["elements of the traced tensor compared with a brute-force diagonal sum"])

prop("P07", "SVD reproduces the tensor, gives isometries, and truncates optimally",
     "For any bipartition of the edges, multiplying the two factors with the singular values between them reproduces the tensor; both factors are isometries on the new edge; the singular values are non-negative and sorted within each quantum number. With a truncation to k values, exactly the k largest singular values over all quantum numbers (all of them if there are fewer) are kept, and the squared distance to the original equals the sum of the squares of the discarded ones.",
     ["inputs"], "all tensors (including rank-deficient, zero, degenerate, tall and wide ones), all bipartitions, all truncations k >= 1, every symmetry and scalar type",
     "Tests check reconstruction of a few random matrices; truncation across quantum numbers, degenerate or zero singular values and fermionic layouts are not checked.",
     [T + "svd.hpp", T + "tensor_miscellaneous.hpp", T + "edge_operator.hpp"],
     [("block-wise SVD and selection of kept values", T + "svd.hpp:Tensor::svd"),
      ("multiplying singular values onto an edge", T + "tensor_miscellaneous.hpp:Tensor::multiple")],
     ["factors and singular values, checked by independent reconstruction, isometry and selection monitors"])

prop("P08", "QR reproduces the tensor with an isometric factor on the requested side",
     "For any choice of which edges belong to either factor, contracting the two factors over the new edge reproduces the tensor, the orthogonal factor is an isometry on the new edge, and the new edge's dimension for each quantum number is the smaller of the two sides. The other factor is triangular between the new edge and its merged edges.",
     ["inputs"], "all tensors, all bipartitions and both ways of naming them, every symmetry and scalar type, all block shapes",
     "Tests compare one or two shapes per direction; the QR and LQ paths, tall and wide blocks, and the fermionic signs depend on edge order.",
     [T + "qr.hpp", T + "edge_operator.hpp"],
     [("block-wise QR or LQ", T + "qr.hpp:Tensor::qr, calculate_qr_kernel")],
     ["both factors, checked by independent reconstruction, isometry and dimension monitors"])

prop("P09", "Matrix exponential and identity over paired edges are the true ones",
     "For tensors viewed as operators through a pairing of their edges, the exponential converges to the true matrix exponential (a diagonal Pade approximant of the requested order with scaling and squaring), whatever the order of the edges, the number of pairs and the magnitude of the elements, including the zero operator. The identity tensor has ones exactly where all paired indices coincide and zeros elsewhere, and is neutral under contraction. This is claimed for tensors without symmetry and with bosonic symmetries, and for fermionic ones with a single pair.",
     ["inputs"], "all operator tensors with conjugate paired edges, any number of pairs and any edge order, real and complex, magnitudes from 0 to large",
     "One test exponentiates one small matrix; symmetric operators with several pairs, odd squarings and degenerate magnitudes are not covered.",
     [T + "exponential.hpp", T + "tensor_miscellaneous.hpp"],
     [("Pade exponential", T + "exponential.hpp:matrix_exponential, Tensor::exponential"),
      ("identity", T + "tensor_miscellaneous.hpp:Tensor::identity")],
     ["elements of the exponential compared with a high-precision series; identity compared with a Kronecker delta"])

prop("P10", "Conjugation is an exact involution and norms measure the stored elements",
     "Conjugating a tensor conjugates every element, negates every quantum number, flips every arrow, and for fermionic tensors adds the sign of completely reversing the edge order; conjugating twice restores the tensor exactly. Every norm (maximum, count, sum of moduli, Euclidean and higher powers) equals that of the list of stored elements, and without symmetry or with a bosonic symmetry the full contraction with the conjugate equals the squared Euclidean norm.",
     ["inputs"], "all tensors of every symmetry and scalar type",
     "Tests conjugate a few tensors and print them; the sign depends on the parities of all edges together.",
     [T + "tensor_miscellaneous.hpp", T + "tensor.hpp"],
     [("conjugate", T + "tensor_miscellaneous.hpp:Tensor::conjugate"), ("norms", T + "tensor.hpp:Tensor::norm")],
     ["elements of the conjugate; returned norms"])

prop("P11", "Tensor and scalar arithmetic is elementwise and matched by edge name",
     "Adding, subtracting, multiplying or dividing two tensors, or a tensor and a number, acts elementwise after matching the edges by name (with the transposition sign for fermions); quantum numbers held by only one operand are treated as zero blocks of the other. In-place forms give the same elements as the out-of-place forms, and converting between scalar types converts every element.",
     ["inputs"], "all compatible operand pairs, all scalar type combinations, all edge orders",
     "Tests add a few identical-shape tensors; differing edge orders, partially missing quantum numbers and mixed scalar types are not compared with a reference.",
     [T + "scalar.hpp", T + "tensor.hpp"],
     [("operator macros", T + "scalar.hpp:TAT_DEFINE_SCALAR_OPERATOR"), ("scalar conversion", T + "tensor.hpp:Tensor::to")],
     ["elements of the result compared with an elementwise model"])

prop("P12", "Tensors are independent values: no operation changes its inputs or copies",
     "Modifying a tensor through any mutating operation never changes another tensor that was copied, renamed, converted, conjugated or otherwise derived from it, nor the tensor it was derived from. Non-mutating operations leave every operand bit-for-bit unchanged, even when the same tensor is passed several times.",
     ["histories"], "all interleavings of copies, derivations and mutations over a population of tensors, every symmetry and scalar type",
     "Data is shared behind the scenes and copied on write; only particular interleavings of derive-then-mutate reveal missing copies, and tests contain none of them systematically.",
     [T + "tensor.hpp", T + "propagate_const.hpp", T + "get_item.hpp", T + "scalar.hpp"],
     [("copy when shared", T + "tensor.hpp:Tensor::transform; get_item.hpp:block, at; scalar.hpp"),
      ("sharing of the data between renamed tensors", T + "tensor.hpp:core")],
     ["bytes of every live tensor after each step, compared with a shadow model"])

prop("P13", "Element access, shrink and expand address exactly the named coordinates",
     "Reading or writing an element or block by edge names and coordinates reaches exactly that element, independent of edge order. Fixing coordinates of some edges returns the corresponding slice (with an extra one-dimensional edge carrying the fixed charge if requested), and expanding a one-dimensional edge or adding new edges places the tensor at the given coordinates with zeros elsewhere, so that shrinking undoes expanding.",
     ["inputs"], "all tensors, all coordinates, all subsets of edges; bosonic and no symmetry for slices, every symmetry for element access",
     "Tests read a few elements of fixed tensors; slices of symmetric tensors and non-zero charges are not covered.",
     [T + "get_item.hpp", T + "shrink_and_expand.hpp"],
     [("coordinate lookup", T + "get_item.hpp"), ("slice and expand via contraction", T + "shrink_and_expand.hpp")],
     ["values returned by element access; elements of the slice/expansion compared with the source"])

prop("P14", "Binary serialisation round-trips tensors bit for bit",
     "Writing any tensor, edge, name, quantum number or set of singular values in binary form and reading it back yields an identical object, bit for bit (including NaN, infinities and signed zeros), consumes exactly the bytes written, and works for any number of objects written one after another. Reading back a name dictionary restores the meaning of every numbered name.",
     ["inputs", "histories"], "all tensors and singular-value sets of every symmetry, scalar and name type; all concatenations",
     "Tests round-trip a couple of small tensors in text; exotic values, empty blocks, empty names, all symmetries and concatenation are not covered.",
     [T + "io.hpp", T + "name.hpp"],
     [("binary operators", T + "io.hpp:operator<, operator>"), ("dump and load", T + "io.hpp:dump, load"), ("name dictionary", T + "io.hpp:dump_fast_name_dataset")],
     ["bytes written and objects read back"])

prop("P15", "Text output reads back as the same tensor",
     "Printing any tensor whose names use ordinary identifier characters and reading the text back yields a tensor with the same names, edges, arrows and block structure, whose elements equal the originals to the precision printed; with enough digits requested they are identical. Printing a tensor that was read back gives the same text again.",
     ["inputs"], "all finite-valued tensors of every symmetry and scalar type, any rank including 0, several tensors in one stream",
     "One test reads a few literals; complex numbers, signs, exponents, all symmetries and rank zero are not covered.",
     [T + "io.hpp"],
     [("text operators", T + "io.hpp:operator<<, operator>>")],
     ["text written and objects read back"])

prop("P16", "MPI transfers and collectives deliver every value exactly once, correctly",
     "For every number of processes (sharing one name dictionary) and every root, broadcast leaves every process with the root's tensor, reduce gives the root the combination of every process's contribution exactly once, and point-to-point transfer gives the destination exactly the source's tensor (and an empty one elsewhere). Barriers complete, consecutive collectives do not mix, and no process hangs.",
     ["schedules", "inputs", "configurations"], "all process counts, roots, source/destination pairs, payload types and sizes, and process timings",
     "The test runs two fixed process counts with one root and one payload; tree positions for other counts and roots, large payloads and skewed timing are not reached.",
     [T + "mpi.hpp"],
     [("tree broadcast and reduce", T + "mpi.hpp:mpi_t::broadcast, reduce"), ("send and receive", T + "mpi.hpp:mpi_t::send, receive, send_receive")],
     ["per-process event logs of what was contributed and received, checked offline"])

prop("P17", "Lazy values equal recomputation from current inputs, computed at most once",
     "Reading a node of the lazy graph always returns the value obtained by evaluating its definition on the current values of the inputs, after any history of updates, reads, newly defined or dropped nodes, failing computations and restores of saved graphs. Between two changes of its inputs a node is computed at most once, and restoring a saved snapshot brings back the saved values of the nodes that were in it.",
     ["histories"], "all dependency graphs and all histories of set, get, reset, dump, load",
     "The test runs one short scripted history on a tiny graph.",
     ["include/lazy.hpp"],
     [("downstream invalidation", "include/lazy.hpp:node_base, root"), ("graph snapshot", "include/lazy.hpp:graph dump/load")],
     ["values returned by reads and the number of times each definition ran"])

prop("P18", "Edge names map one-to-one to identities for the life of the program",
     "Two names built from equal texts are always equal and two built from different texts are always different, a name prints as the text it was made from, and its ordering is a strict total order. This stays true after any number of names were created, copied, dumped, loaded or restored, and the values of contractions, traces, decompositions, edge operations, exponentials and arithmetic do not depend on the order in which names were first used.",
     ["inputs", "histories"], "all name texts and all histories of registering, printing, dumping and loading names, for both name implementations",
     "Tests use a dozen fixed names; collisions, ordering effects and reloading need many names and particular histories.",
     [T + "name.hpp", T + "io.hpp"],
     [("name registry", T + "name.hpp:FastName, fast_name_dataset"), ("name dictionary persistence", T + "io.hpp:dump_fast_name_dataset, load_fast_name_dataset")],
     ["equality, ordering and printed form of names; tensors computed under different registration orders"])

prop("P19", "Build-time options change performance or representation, never results",
     "The documented compile-time options (plain-string names, the simplified representation for tensors without symmetry, matrix-form singular values, cache sizes, batched multiplication, timers, warnings) do not change the value of any tensor operation: the same program run on the same inputs under any combination yields the same tensors, and the same binary files unless the option changes the stored representation (plain-string names, simplified representation).",
     ["configurations", "inputs"], "all combinations of the options, over the whole set of operations and random inputs",
     "The test suite is built in one configuration; the alternative code paths are compiled elsewhere or not at all.",
     [T + "TAT.hpp", T + "edge.hpp", T + "core.hpp", T + "svd.hpp", T + "tensor_miscellaneous.hpp", T + "timer.hpp", T + "name.hpp", T + "transpose.hpp"],
     [("simplified maps", T + "edge.hpp:fake_map"), ("matrix-form singular values", T + "svd.hpp:singular_to_tensor"), ("cache-dependent kernels", T + "transpose.hpp")],
     ["digests of every result of a seeded operation trace, compared across configurations"])

prop("P20", "Valid use never overruns memory, leaks or hits undefined behaviour",
     "No sequence of valid calls makes the library access memory outside or after the life of an object, read uninitialised data, overflow signed arithmetic, leak memory, or otherwise invoke undefined behaviour, whatever the shapes, symmetries and scalar types; temporary working memory is returned and restored even when a call ends with an error.",
     ["inputs", "histories", "configurations"], "all valid operation sequences on all tensor shapes (including empty, one-dimensional, rank zero and larger than the scratch buffers), with and without errors in between",
     "The test binaries run without sanitizers on a few shapes, so out-of-bounds reads that happen to be harmless and scratch-arena overruns stay invisible.",
     [T + "pmr_resource.hpp", T + "core.hpp", T + "edge_operator.hpp", T + "transpose.hpp", T + "contract.hpp", T + "svd.hpp", T + "qr.hpp"],
     [("scoped scratch arena", T + "pmr_resource.hpp:scope_resource, monotonic_buffer_resource"), ("uninitialised storage", T + "core.hpp:allocator_without_initialize")],
     ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions, poisoned allocations"],
     "a guard that gives every scratch allocation its own heap block, so the sanitizer sees overruns inside the arena")

prop("P21", "Invalid requests are refused with an error and leave all tensors intact",
     "Requests the library cannot honour (wrong number of names, duplicate names, unknown names or names missing from a transposition, incompatible dimensions or arrows or charges, wrong rank, invalid directions, unequal shapes in place, taking a scalar from a larger tensor, missing coordinates) raise an exception rather than returning a wrong result. After the exception every operand is unchanged and later operations give the same results as if the request had not been made.",
     ["inputs", "histories"], "all classes of invalid requests at all positions of an operation history",
     "The tests contain no negative cases.",
     [T + "edge_operator.hpp", T + "contract.hpp", T + "scalar.hpp", T + "name.hpp", T + "tensor.hpp", T + "shrink_and_expand.hpp", T + "get_item.hpp"],
     [("checks that raise", T + "TAT.hpp:TAT_error"), ("scope-bound scratch memory", T + "pmr_resource.hpp")],
     ["exceptions, operand bytes, scratch-memory state and results of following operations"])

prop("P22", "Exact lattice: power steps and expectation values match the dense Hamiltonian",
     "For an exact lattice state, an update step applies exactly (shift minus total Hamiltonian) to the state vector up to normalisation, every expectation value of an operator on any set of sites equals the dense matrix element divided by the norm, and the reported energy is the dense energy per site.",
     ["inputs", "histories"], "all lattice shapes, physical dimensions, Hamiltonians and operators on one or more sites, in any site order, and all numbers of steps",
     "One test compares one model on one lattice with a printed energy.",
     [S + "exact_lattice.hpp", S + "abstract_lattice.hpp", S + "conversion.hpp", S + "basic.hpp"],
     [("power step", S + "exact_lattice.hpp:update"), ("observation", S + "exact_lattice.hpp:observe, observe_energy")],
     ["state vector before and after each step, returned energies and expectation values, compared with a dense reference"])

prop("P23", "Simple update applies the evolution exactly when the bond is not truncated",
     "Applying one evolution gate by simple update with a bond dimension large enough not to truncate changes the physical state represented by the network exactly by that gate, up to normalisation, for every bond, direction, site order and edge layout; without gates, the state is unchanged. Converting the network to an exact state gives the contraction of its tensors with the bond weights counted once, and the outcome does not depend on the number of MPI processes sharing the work.",
     ["inputs", "histories", "configurations"], "all lattice shapes, bond dimensions, Hamiltonian terms on one or two neighbouring sites, numbers of steps and process counts",
     "The tests look at energies of one model, where a wrong gauge, orientation or weight only shifts digits.",
     [S + "simple_update_lattice.hpp", S + "conversion.hpp", S + "abstract_network_lattice.hpp"],
     [("two-site update with environment", S + "simple_update_lattice.hpp"), ("conversion to exact state", S + "conversion.hpp")],
     ["full state vectors before and after updates compared with the dense gate application"])

prop("P24", "Environment contraction equals the exact contraction for any history of changes",
     "With a cut-off large enough not to truncate, contracting the two-dimensional network, with zero, one or two neighbouring tensors replaced, or with a hole, equals the brute-force contraction of the current tensors. This holds after any history of tensor changes, reads and copies, for every position and orientation, and copies are independent of the original.",
     ["histories", "inputs"], "all lattice shapes, all histories of setting tensors, reading with replacements or holes, and copying",
     "The cached partial contractions are invalidated selectively; only certain histories would read a stale one, and tests read each network once.",
     [S + "auxiliaries_system.hpp", "include/lazy.hpp"],
     [("lazily cached lines and environments", S + "auxiliaries_system.hpp:SquareAuxiliariesSystem")],
     ["returned values compared with a brute-force contraction of the shadow lattice"])

prop("P25", "Sampling: enumeration reproduces exact averages; Markov weights are never stale",
     "Enumerating all configurations of a sampling lattice gives exactly the expectation values and energy terms of the state the network represents (when the cut-off does not truncate). Along any Markov chain, every configuration visited is connected with the start by Hamiltonian terms and so conserves what the Hamiltonian conserves, the amplitude of each configuration equals the contraction of the network at that configuration, and the averages, squared errors and energy gradient reported are those of the visited configurations. A sweep preserves the distribution given by the squared amplitudes.",
     ["histories", "inputs"], "all lattice shapes, networks, Hamiltonians, observers, chain lengths and random seeds",
     "Tests compare one enumeration energy; chains are random and their internal amplitudes are never compared with fresh contractions.",
     [S + "sampling_gradient_lattice.hpp", S + "auxiliaries_system.hpp"],
     [("enumeration", S + "sampling_gradient_lattice.hpp:ergodic"), ("Markov chain", S + "sampling_gradient_lattice.hpp:markov"), ("spin configuration cache", S + "sampling_gradient_lattice.hpp:Spin")],
     ["returned averages and gradients; amplitudes of visited configurations"])

prop("P26", "Saving and loading a lattice restores an equivalent lattice",
     "Writing a lattice of any kind to a file or stream and reading it back gives a lattice with the same size, Hamiltonian terms, tensors, bond weights, cut-offs and configuration, which then evolves and measures exactly as the original would. Several lattices in one stream are read back in order.",
     ["histories", "inputs"], "all lattice kinds, sizes, Hamiltonians and points of their life at which they are saved",
     "No test saves and loads a lattice.",
     [S + "abstract_lattice.hpp", S + "abstract_network_lattice.hpp", S + "exact_lattice.hpp", S + "simple_update_lattice.hpp", S + "sampling_gradient_lattice.hpp"],
     [("stream operators of each lattice kind", S + "*.hpp:operator<, operator>")],
     ["the restored lattice's state and its later behaviour compared with the original's"])

prop("P27", "The Python module computes and converts exactly like the library",
     "From Python, elements and blocks are read and written in the edge order asked for and reach the tensor's own storage; pickling, binary and text storage restore equal tensors, and every tensor operation (arithmetic, transposition, merging, splitting, contraction, trace, norms, decompositions, exponential, conjugation, slicing, conversion between scalar types, transfers between processes) agrees with an element-wise evaluation. Copies and results are independent of their operands, equal names and quantum numbers compare and hash equal, and equal seeds give equal random numbers.",
     ["inputs", "histories"], "all tensor types exposed, all operations and edge orders, all sequences of views, copies and modifications",
     "The Python tests print a fixed script's output or compare one operation without symmetry at a time.",
     ["PyTAT/PyTAT.cpp", T + "TAT.hpp"],
     [("binding of tensor operations", "PyTAT/PyTAT.cpp"), ("block views", "PyTAT/PyTAT.cpp:block_of_tensor")],
     ["values seen from Python compared with numpy evaluation"])

prop("P28", "Python lattices agree with dense references for any history of operations",
     "The Python lattice package gives the same results as dense linear algebra: exact updates and expectation values, untruncated simple update steps and their measurements, conversions between lattice kinds, environment contractions with any tensor or neighbouring pair replaced or removed after any history of setting, deleting, copying and combining, amplitudes of configurations, and the sums reported by enumeration and by Markov chains over the configurations visited, whose sweeps preserve the squared amplitudes. Copied and pickled lattices behave like the original and are independent of it under the package's own operations.",
     ["histories", "inputs"], "all lattice shapes, Hamiltonians and operation histories small enough for a dense reference",
     "The Python lattice tests check the printed energy of one model.",
     ["square/auxiliaries.py", "square/exact_lattice.py", "square/simple_update_lattice.py", "square/sampling_gradient_lattice.py", "square/abstract_lattice.py", "square/abstract_network_lattice.py"],
     [("cached environments", "square/auxiliaries.py"), ("update and observe", "square/exact_lattice.py, square/simple_update_lattice.py"), ("enumeration and chains", "square/sampling_gradient_lattice.py")],
     ["values returned by the package compared with numpy references"])

prop("P29", "Construction and filling give exactly the edges and elements asked for",
     "A tensor made from names and edges (from any of the edge forms), from a number, or with a single element has exactly the edges, arrows and usable quantum numbers given; filling calls its generator exactly once per element in storage order (blocks by ascending quantum numbers, last edge fastest), mapping applies its function exactly once to every element, and a one-element tensor converts back to its number. Scaling an edge by a list of weights, or dividing by it, scales each slice by its own weight. Quantum numbers add, negate and compare as their integer labels (modulo two for Z2).",
     ["inputs"], "all symmetries, scalar types, edge forms, shapes and quantum numbers",
     "The tests construct a handful of fixed shapes and compare printed text.",
     [T + "tensor.hpp", T + "core.hpp", T + "edge.hpp", T + "symmetry.hpp", T + "tensor_miscellaneous.hpp"],
     [("constructors and fillers", T + "tensor.hpp:Tensor, one, set, map, transform, zero, test"), ("block enumeration", T + "core.hpp:Core"), ("edge forms", T + "edge.hpp:BoseEdge, FermiEdge"), ("quantum numbers", T + "symmetry.hpp:operator+, operator-"), ("weights", T + "tensor_miscellaneous.hpp:multiple")],
     ["elements and edges read back and compared with the documented layout; calls of generators and functions counted"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
only = None
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
