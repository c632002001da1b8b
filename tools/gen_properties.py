#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "Superoptimisation preserves what the circuit computes",
 "Whatever circuit (a region with nested data-flow regions and calls, without control flow), rewrite-rule set, cost strategy and search options are given to the superoptimiser (single threaded, multi threaded or, for circuits without explicit ordering edges, split into chunks), the circuit it returns is valid, has the same signature, and implements the same quantum channel up to global phase. This also holds for circuits with measurements, resets, allocations, classical outputs and gates the rules do not mention.",
 ["programs","configurations","schedules"],
 "every circuit x every equivalence-class rule set x every option/threading mode",
 "Tests optimise a handful of fixed circuits and only compare gate counts or re-validate; none compares the operation implemented.",
 ["tket/src/optimiser/badger.rs","tket/src/rewrite/ecc_rewriter.rs","tket/src/rewrite/strategy.rs","tket/src/passes/chunks.rs"],
 [("rewrite rules come from equivalence classes; only convex matches are replaced","tket/src/rewrite/ecc_rewriter.rs"),("search applies rewrites to clones","tket/src/optimiser/badger.rs")],
 [("best circuit","lowest-cost circuit seen so far")])

prop("C02", "Optimising never makes the circuit worse under the chosen cost",
 "The circuit returned by the superoptimiser never has a higher cost than the input under the cost function of the strategy in use, in every threading and splitting mode. With the exhaustive search run to completion (no limits), the returned cost is the minimum over all circuits reachable through the rewrites whose proposals the strategy accepts.",
 ["programs","configurations","schedules"],
 "every circuit, strategy, queue size, thread count, timeout, and search limits",
 "Tests check the optimal cost of two or three small circuits with one rule set; never the relation input cost/output cost over options.",
 ["tket/src/optimiser/badger.rs","tket/src/optimiser/badger/worker.rs","tket/src/rewrite/strategy.rs","tket/src/circuit/cost.rs"],
 [("best-so-far tracking and cost threshold on candidates","tket/src/optimiser/badger.rs")],
 [("pending queue","unexplored circuits ordered by cost"),("seen set","hashes of circuits already queued")])

prop("C03", "Every proposed rewrite is sound, in bounds and honestly priced",
 "Every rewrite that the rewriter proposes for a circuit can be applied, gives a valid circuit with the same signature that implements the same channel up to global phase, and invalidates nothing outside the region it reports as changed. The cost difference it declares equals the difference between the costs of the circuit after and before, and each strategy yields only results that the rewrites generate and that satisfy the strategy's acceptance rule.",
 ["programs","inputs"],
 "every circuit, every match location, every rule replacement, every strategy",
 "Tests count matches on a few hand written circuits and apply one replacement.",
 ["tket/src/rewrite.rs","tket/src/rewrite/ecc_rewriter.rs","tket/src/rewrite/strategy.rs","tket/src/circuit/cost.rs","tket/src/portmatching/matcher.rs"],
 [("convexity check and boundary port mapping when building the replacement","tket/src/portmatching/matcher.rs"),("node count and cost deltas","tket/src/rewrite.rs")])

prop("C04", "Pattern matching finds exactly the occurrences of each pattern",
 "For any set of circuit patterns and any target circuit, the matcher reports a match exactly where the pattern occurs as a convex sub-circuit with the same gates, constants and wiring: it reports no place where the pattern does not occur, and misses none. (Places where two inputs of the pattern carry the same value or an output of the pattern is not read further may be left out, as may operations tied to constants outside the region.) The result does not depend on which other patterns are in the set, on the order in which they were added, or on saving and reloading the matcher.",
 ["programs","inputs"],
 "every pattern set (connected patterns) x target circuit",
 "Tests check the number of matches for about ten fixed pattern/target pairs.",
 ["tket/src/portmatching.rs","tket/src/portmatching/pattern.rs","tket/src/portmatching/matcher.rs"],
 [("portmatching automaton over node and edge predicates","tket/src/portmatching/matcher.rs"),("predicate compilation of a circuit","tket/src/portmatching/pattern.rs")])

prop("C05", "The bounded search queue keeps the best states and delivers each once",
 "The optimiser's pending queue never holds more than its capacity; it always delivers a state of minimal cost among those held, and when it is full it gives up only states of maximal cost. A state (identified by its hash) that was accepted once is never accepted again, and the best state ever offered and the list of n best states (n no larger than the capacity) are always the true minima over everything offered.",
 ["histories","inputs"],
 "every sequence of pushes, bulk pushes, pops, truncations and clears, with equal costs and equal hashes",
 "Unit tests run three short fixed sequences.",
 ["tket/src/optimiser/pqueue.rs"],
 [("double-ended priority queue with a hash-indexed seen set","tket/src/optimiser/pqueue.rs")],
 [("queue","hash and cost of pending entries"),("seen","hashes ever offered"),("best","n best states")],
 hook="guarded re-export of the queue, which is a private type")

prop("C06", "Parallel search loses no work, duplicates none, and terminates",
 "In the parallel optimiser every circuit accepted by the shared queue is handed to at most one worker and in cost order, nothing is handed out twice, every result a worker delivers before the search is stopped is taken into account, and the returned circuit is the cheapest of all those delivered. Closing the search (time limit, progress limit, or circuit limit) always stops all threads, whatever the interleaving.",
 ["schedules","histories","configurations"],
 "all interleavings of workers, queue thread and the stopping decision; all stop reasons",
 "Tests run the parallel mode once or twice under whatever schedule happens; none examines the interleavings or the stop protocol.",
 ["tket/src/optimiser/pqueue_worker.rs","tket/src/optimiser/badger/worker.rs","tket/src/optimiser/badger.rs"],
 [("rendezvous and unbounded channels between queue thread and workers; shared closed flag","tket/src/optimiser/pqueue_worker.rs")],
 [("pending","entries in the queue"),("in flight","entries handed to a worker"),("closed","queue shut")],
 hook="guarded re-export of the queue worker and event hooks")

prop("C07", "The generic backtracking optimiser explores best-first within its limits",
 "For every search space, the backtracking optimiser returns a state of minimal cost among the start state and all states it generated, and with no limits it visits every state reachable from the start exactly once (by hash) and returns the global minimum. With a limit on visited states or a queue capacity it never exceeds that limit, and the list of n best states is sorted, duplicate free and consists of the n cheapest states offered (n no larger than the queue capacity; states with equal hashes are one state).",
 ["histories","configurations"],
 "every finite search graph with costs and hashes x every option combination",
 "Unit tests walk one integer toy space.",
 ["tket/src/optimiser/backtracking.rs","tket/src/optimiser.rs","tket/src/optimiser/pqueue.rs"],
 [("best-first loop over the pending queue","tket/src/optimiser/backtracking.rs")],
 [("queue","pending states"),("visited count","states popped so far")])

prop("C08", "Circuit hashes identify circuits by structure only",
 "Two dataflow circuits that are the same graph hash equally whatever order their operations were inserted in and whatever internal numbering they have. Circuits that differ in an operation (a gate, a constant or parameter, a called function, one that leads to no output), the wires an operation acts on, the order of non-independent gates, or the order of outputs hash differently. (A region with control flow inside has no hash: an error. Unused constants do not count, nor whether two uses share one copyable result or compute it twice.)",
 ["programs"],
 "every pair of circuits related by re-insertion order, and every single structural edit of a circuit",
 "Tests compare five fixed pairs.",
 ["tket/src/circuit/hash.rs"],
 [("hash folds operation, ports and predecessor hashes along a topological order","tket/src/circuit/hash.rs")])

prop("C09", "Greedy commutation preserves the computation",
 "Pulling commuting gates forward never changes what the circuit computes (its channel and classical outputs), keeps the circuit valid and keeps exactly the same multiset of operations. It never fails on a valid circuit, including circuits with measurements, allocations, classical control, nested regions and operations it knows nothing about.",
 ["programs"],
 "every circuit over every gate mix, including operations without known commutation rules",
 "Tests check about ten fixed circuits and compare slice tables, not semantics.",
 ["tket/src/passes/commutation.rs","tket/src/ops.rs"],
 [("per-port commutation table","tket/src/ops.rs"),("slice table of commands and rewiring","tket/src/passes/commutation.rs")],
 [("slices","for each time step, which command occupies each qubit")])

prop("C10", "Splitting into chunks and reassembling is lossless",
 "Cutting a circuit (one whose top-level operations neither call other functions nor carry explicit ordering edges) into chunks of bounded cost and reassembling the chunks, with some of them replaced by equivalent ones (including chunks whose wires became trivial), gives a valid circuit with the original signature that computes the same thing. Every operation other than constants and their loads is in exactly one chunk, and no chunk exceeds the requested cost unless a single operation does.",
 ["programs","configurations"],
 "every circuit x chunk size x cost function x subset of replaced chunks",
 "Tests split two or three fixed circuits.",
 ["tket/src/passes/chunks.rs"],
 [("convex chunk boundaries with fresh connection identifiers, transitive merges of empty wires","tket/src/passes/chunks.rs")],
 [("connections","identifiers shared by chunk boundaries")])

prop("C11", "Iterating over a circuit's commands respects structure and units",
 "Iterating over the commands of a circuit yields every operation exactly once (only constants that nothing uses may be left out) in an order compatible with data dependencies, and never announces fewer remaining commands than it goes on to yield. Each command names the units it acts on so that a linear value keeps one and the same unit from its creation to its end, and two distinct live linear values never share a unit.",
 ["programs"],
 "every circuit, including allocation after deallocation, constants, swaps and nested regions",
 "Tests iterate over five fixed circuits; none allocates after freeing.",
 ["tket/src/circuit/command.rs","tket/src/circuit/units.rs","tket/src/circuit/units/filter.rs"],
 [("wire to unit map updated as nodes are visited","tket/src/circuit/command.rs")],
 [("wire units","unit currently carried by each linear wire")])

prop("C12", "Squashing borrow/return pairs keeps array behaviour",
 "Removing redundant borrow and return operations on arrays never changes results, final array contents, which qubit each gate acts on, or whether and where the program panics, and the program stays valid. Within a run of borrow and return operations with known indices on one array and nothing else touching the array, the pass leaves no element that was borrowed and given back and is then borrowed once more (unless the program is certain to panic by misusing an array this one is an element of).",
 ["programs","configurations"],
 "every sequence of constant or dynamic index borrows, returns and other array operations x options",
 "Tests cover a few dozen hand-made sequences and count the remaining operations.",
 ["tket/src/passes/borrow_squash.rs"],
 [("per-array map from constant index to borrowed wire, cleared at unknown accesses","tket/src/passes/borrow_squash.rs")],
 [("borrowed elements","which indices are currently out of the array")])

prop("C13", "Normalisation of front-end code preserves the program",
 "Normalising a program as produced by the Guppy front end (operations with side effects chained by ordering edges from the input to the output of each region, no value edges crossing region borders; control-flow simplification, tuple unpacking, constant folding, dead function removal, inlining of nested regions, borrow squashing), in every combination of options, keeps the program valid with the same entrypoint signature and the same observable behaviour: measurement outcomes, reported results, panics and final quantum state. The same holds for removing tuple pack/unpack pairs in isolation.",
 ["programs","configurations"],
 "every program with loops, branches, calls, tuples, arrays x 2^n option combinations",
 "Tests run about ten recorded Guppy programs and count gates.",
 ["tket/src/passes/guppy.rs","tket/src/passes/tuple_unpack.rs","tket/src/passes/unpack_container.rs","tket/src/passes/pytket.rs","tket/src/passes/unpack_container/type_unpack.rs"],
 [("pass pipeline","tket/src/passes/guppy.rs"),("tuple rewrites","tket/src/passes/tuple_unpack.rs")])

prop("C14", "Modifier resolution implements control and dagger exactly",
 "Resolving control and dagger modifiers turns an indirect call of a modified function into a call of a function implementing exactly the controlled or inverted unitary (up to the global phase of the whole program), for any chain of modifiers, any control array sizes and any body of gates, rotations, global phases, nested regions, conditionals, loops (under control), arrays and direct calls of unitary or classical functions. Control qubits come back in their arrays in the order they were given. No modifier remains, and the program stays valid with the same signature. (The power modifier, control flow graphs of several blocks, ordering edges and user-defined operations are documented as unsupported.)",
 ["programs"],
 "every unitary function body x every nesting of control/dagger x every control count",
 "Tests check that a few dozen modified programs validate; only a handful check the resulting gates.",
 ["tket/src/modifier.rs","tket/src/modifier/modifier_resolver.rs","tket/src/modifier/modifier_resolver/tket_op_modify.rs","tket/src/modifier/modifier_resolver/call_modify.rs","tket/src/modifier/modifier_resolver/dfg_modify.rs","tket/src/modifier/modifier_resolver/array_modify.rs","tket/src/modifier/modifier_resolver/global_phase_modify.rs"],
 [("gate-by-gate controlled/inverse decompositions","tket/src/modifier/modifier_resolver/tket_op_modify.rs"),("control qubits threaded through regions","tket/src/modifier/modifier_resolver/dfg_modify.rs")],
 [("controls","control wires threaded through the modified region")])

prop("C15", "Resource tracking assigns each linear value one path with rising positions",
 "In every region, each linear value belongs to exactly one resource; the uses of a resource form one path from its creation to its end, along which positions strictly increase, and positions also never decrease along any data dependency. Distinct values live at the same time never share a resource, copyable values never carry one, and every operation is reachable through the resources and values it touches.",
 ["programs"],
 "every circuit with gates, allocations, frees, swaps, nested regions and opaque operations",
 "Tests look at a few fixed circuits.",
 ["tket/src/resource.rs","tket/src/resource/scope.rs","tket/src/resource/flow.rs","tket/src/resource/types.rs"],
 [("resource flow per operation, topological propagation","tket/src/resource/scope.rs")],
 [("circuit units","resource or copyable value per port"),("position","rational position per node")])

prop("C16", "Expressions and intervals cover exactly what they claim",
 "The expression built for a copyable value holds exactly the operations that the value is computed by, going back to the allowed boundary inputs, the excluded operations, operations on linear values and the border of the scope. Its outputs are the values used outside of it, with the requested value first; its inputs are the ports where the search stopped, in the documented order; it is refused exactly when a path leaves it and enters it again. Cutting it out and putting it back leaves the program valid and its behaviour unchanged. An interval on a resource path holds exactly the operations from its first to its last, and is extended exactly by the operation just before or after it; anything else is an error that leaves it as it was.",
 ["programs","inputs"],
 "every circuit x every copyable value x every choice of boundary; every pair of ends on every path",
 "Tests try four expressions and a handful of intervals in fixed circuits.",
 ["tket/src/subcircuit.rs","tket/src/subcircuit/interval.rs","tket/src/subcircuit/expression.rs","tket/src/resource/scope.rs"],
 [("backwards traversal with boundary, convexity","tket/src/subcircuit/expression.rs"),("intervals on one resource path","tket/src/subcircuit/interval.rs")])

prop("C17", "Circuit views report the truth about the program",
 "The number of operations a circuit reports (over all nested regions), the qubits and units of its interface, and every additive cost over its commands or over chosen nodes, equal what a direct traversal of the program gives. Any nested dataflow region can be viewed as a circuit; taking ownership of it or extracting it yields a valid circuit with that region's signature and the same computation. Cost values add, subtract, divide and compare consistently: applying the difference of two costs to one of them gives the other.",
 ["programs"],
 "every circuit and every nested region, with unused wires and mixed types; every pair of costs",
 "Tests assert counts for a few fixed circuits.",
 ["tket/src/circuit.rs","tket/src/circuit/cost.rs","tket/src/circuit/extract_dfg.rs","tket/src/circuit/units.rs"],
 [("recursive traversal of regions","tket/src/circuit.rs")])

prop("C20", "Encoding to pytket preserves the computation",
 "The command list produced by encoding a circuit for pytket, executed in order on its registers from the inputs, performs the same quantum channel and leaves the same values on the output registers as the original circuit, up to global phase recorded in the circuit. This holds for every mix of gates, allocation, freeing, reset, measurement, boolean logic, parameter arithmetic and nested regions that the encoder accepts.",
 ["programs","configurations"],
 "every circuit the encoder accepts x encoder options",
 "Round-trip tests on a few dozen circuits compare signatures and operation counts, never what the encoded commands do to the registers.",
 ["tket/src/serialize/pytket/encoder.rs","tket/src/serialize/pytket/encoder/value_tracker.rs","tket/src/serialize/pytket/extension/tket.rs","tket/src/serialize/pytket/extension/bool.rs","tket/src/serialize/pytket/extension/prelude.rs","tket/src/serialize/pytket/extension/rotation.rs","tket-qsystem/src/pytket/qsystem.rs"],
 [("tracker from wires to registers and parameter expressions","tket/src/serialize/pytket/encoder/value_tracker.rs")],
 [("register of each wire","which qubit or bit currently holds a value")])

prop("C21", "Decoding from pytket preserves the computation",
 "The program obtained by decoding a pytket circuit performs exactly the same quantum channel and classical computation on its registers as running the pytket commands in order, up to global phase, with qubits then bits in register order as its signature. This holds for every supported gate with every parameter value or expression, conditional commands, implicit qubit permutations, added scratch bits, and commands kept as opaque operations.",
 ["programs","inputs"],
 "every pytket circuit over the supported gate set, conditions, expressions, permutations",
 "Tests decode about twenty fixed JSON circuits and check signature and operation counts.",
 ["tket/src/serialize/pytket/decoder.rs","tket/src/serialize/pytket/decoder/wires.rs","tket/src/serialize/pytket/decoder/tracked_elem.rs","tket/src/serialize/pytket/extension/core.rs","tket/src/serialize/pytket/extension/tket.rs","tket/src/serialize/pytket/extension/tk1.rs"],
 [("wire tracker mapping registers to the newest wires","tket/src/serialize/pytket/decoder/wires.rs")],
 [("tracked elements","latest wire for each register")])

prop("C22", "Pytket round trips restore the program",
 "Encoding a program to pytket and putting the encoded parts back gives a valid program with the same signature and behaviour, including programs with operations, types, nested control flow and function calls that pytket cannot express. Decoding a pytket circuit and encoding it again gives a circuit with the same registers and the same effect.",
 ["programs","configurations"],
 "every program mixing supported and unsupported operations; every pytket circuit",
 "Round-trip tests compare signatures and counts for a few dozen circuits.",
 ["tket/src/serialize/pytket/circuit.rs","tket/src/serialize/pytket/opaque.rs","tket/src/serialize/pytket/opaque/subgraph.rs","tket/src/serialize/pytket/opaque/payload.rs","tket/src/serialize/pytket/decoder/subgraph.rs","tket/src/serialize/pytket/encoder/unsupported_tracker.rs"],
 [("unsupported parts become opaque boxes that refer to, or embed, the original sub-graph","tket/src/serialize/pytket/opaque.rs")])

prop("C23", "Parameter expressions mean the same on both sides",
 "A textual gate parameter is read with the usual arithmetic meaning (precedence, associativity, unary minus, exponent notation, brackets, pi), and whatever the decoder builds for it evaluates to that value for every assignment of the symbols. Parameter arithmetic in a program that is written out as an expression evaluates to the value the program would compute.",
 ["inputs","programs"],
 "every expression over the grammar x every symbol assignment",
 "Tests parse about twenty fixed strings.",
 ["tket/src/serialize/pytket/decoder/param.rs","tket/src/serialize/pytket/decoder/param/parser.rs","tket/src/serialize/pytket/extension/float.rs","tket/src/serialize/pytket/extension/rotation.rs"],
 [("pest grammar and Pratt parser","tket/src/serialize/pytket/decoder/param/parser.rs")])

prop("C30", "Lowering to the hardware instruction set preserves observable behaviour",
 "Compiling a program for the hardware (with any combination of the pass options) gives a valid program with the same entrypoint whose possible outcomes have the same joint effect: the same reported results in the same order, the same panics and exits, and the same final quantum state for each measurement record. Only hardware operations remain on qubits, and no program with supported operations is rejected.",
 ["programs","configurations"],
 "every program with quantum gates, measurement, branches, loops, calls, arrays, booleans, rotations x every option combination",
 "Tests check the ordering of operations or their absence for about ten small programs; none compares behaviour.",
 ["tket-qsystem/src/lib.rs","tket-qsystem/src/extension/qsystem/lower.rs","tket-qsystem/src/replace_bools.rs","tket-qsystem/src/lower_drops.rs"],
 [("pass pipeline","tket-qsystem/src/lib.rs")])

prop("C31", "Every gate lowers to native gates exactly",
 "For each gate of the instruction set and every angle, the sequence of native gates, allocations and measurements it is lowered to implements exactly that gate (up to global phase), on every qubit and under every classical condition. The direct builders for composite gates give the same operation.",
 ["inputs"],
 "every gate x every parameter value x every input state",
 "Tests compare op lists for a few gates; the unitary is never evaluated.",
 ["tket-qsystem/src/extension/qsystem/lower.rs","tket-qsystem/src/extension/qsystem.rs","tket/src/ops.rs"],
 [("decompositions built from phased-x, rz and zz-phase","tket-qsystem/src/extension/qsystem.rs")])

prop("C32", "Deferred measurement results are read and released exactly once",
 "After booleans are replaced by deferred values, on every execution path every deferred measurement that is requested is read or released, never read after release, and never released twice, including through copies, arrays, constants, branches, loops and calls. Every use of a boolean observes the outcome of the measurement it came from.",
 ["programs","histories"],
 "every program and every outcome sequence along every path",
 "Tests check types and operation counts after the pass on a few programs.",
 ["tket-qsystem/src/replace_bools.rs","tket-qsystem/src/replace_bools/static_array.rs","tket-qsystem/src/lower_drops.rs","tket-qsystem/src/extension/futures.rs"],
 [("bool becomes a sum of plain bit and future; copy and discard handlers","tket-qsystem/src/replace_bools.rs")],
 [("future reference count","outstanding copies of each deferred value")])

prop("C33", "Runtime barriers cover every qubit and alter nothing",
 "A barrier in the source becomes a runtime barrier that covers exactly the qubits contained in its operands: bare, in tuples, in arrays of any kind and nesting, and in arrays of options, which have to be full; an option outside an array is left alone. Operations on a covered qubit stay on their side of the barrier, all operands come out unchanged and in order, and the barrier changes nothing else about the program's behaviour. This holds for arrays that have all their elements.",
 ["programs"],
 "every list of operand types and every runtime content of them",
 "Tests check that a few typed barriers produce valid programs.",
 ["tket-qsystem/src/extension/qsystem/barrier.rs","tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs","tket-qsystem/src/extension/qsystem/barrier/wrapped_barrier.rs","tket/src/passes/unpack_container.rs"],
 [("operands unpacked to qubits, barrier, repacked","tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs")])

prop("C34", "Ordering constraints are total, respected and consistent with data flow",
 "After operation ordering is forced, the operations of every region are totally ordered by a chain that agrees with all data dependencies, qubit-freeing and quantum operations come as early and result-reading operations as late as data allows. The program's behaviour is unchanged.",
 ["programs"],
 "every region of every program",
 "One test checks the order in one fixed program.",
 ["tket-qsystem/src/lib.rs"],
 [("topological order with priority ranks","tket-qsystem/src/lib.rs")])

prop("C35", "Generated machine code drives the hardware as the program says",
 "The machine code generated for a compiled program, at every optimisation level, makes the sequence of runtime calls that the program prescribes for each sequence of measurement outcomes: the same gates with the same angles on the same qubits, allocations, measurements, result reports and panics. Every measurement handle is read at most before it is released, every allocated qubit is used only while allocated, and set-up and tear-down each happen once.",
 ["programs","inputs","configurations"],
 "every program x every outcome sequence x every optimisation level",
 "Tests snapshot the generated text for single operations; nothing is executed.",
 ["tket-qsystem/src/llvm.rs","tket-qsystem/src/llvm/qsystem.rs","tket-qsystem/src/llvm/futures.rs","tket-qsystem/src/llvm/result.rs","tket-qsystem/src/llvm/prelude.rs","tket-qsystem/src/llvm/random.rs","tket-qsystem/src/llvm/utils.rs","tket/src/llvm/rotation.rs","tket/src/llvm/bool.rs","qis-compiler/rust/lib.rs","qis-compiler/rust/array.rs"],
 [("op-by-op LLVM emission","tket-qsystem/src/llvm/qsystem.rs"),("entrypoint wrapping and optimisation","qis-compiler/rust/lib.rs")])

prop("C38", "External-compute calls follow the context protocol",
 "On every path, compiled calls to an external compute module use a context obtained before and released once afterwards, pass arguments in order and unchanged, and deliver each returned value to the program point that waits for it. Calls on one context happen in program order.",
 ["programs","histories"],
 "every program with several contexts, functions, signatures",
 "Tests snapshot the emission of single operations.",
 ["tket-qsystem/src/extension/classical_compute.rs","tket-qsystem/src/extension/classical_compute/wasm.rs","tket-qsystem/src/extension/classical_compute/gpu.rs","qis-compiler/rust/gpu.rs"],
 [("context values are linear","tket-qsystem/src/extension/classical_compute.rs")])

prop("C40", "Operations keep their identity through names and serialisation",
 "Every operation, type and constant that the instruction-set extensions define can be written out and read back as the same operation with the same parameters, signature and name, and distinct operations never share a name. The extension definitions shipped as data agree with the ones in the code.",
 ["inputs"],
 "every operation definition x every parameter instantiation",
 "Tests round-trip a few operations of each extension.",
 ["tket/src/ops.rs","tket/src/extension.rs","tket/src/extension/bool.rs","tket/src/extension/rotation.rs","tket/src/extension/modifier.rs","tket/src/extension/debug.rs","tket-qsystem/src/extension/qsystem.rs","tket-qsystem/src/extension/futures.rs","tket-qsystem/src/extension/result.rs","tket-qsystem/src/extension/random.rs","tket-qsystem/src/extension/utils.rs","tket-exts/src/tket_exts/data"],
 [("derive-generated definition tables","tket/src/ops.rs")])

prop("C41", "Stored circuits, rule sets and patterns reload unchanged",
 "A circuit saved in any of the supported formats and loaded again is the same program with the same entrypoint, signature, metadata and behaviour, and loading a named function selects that function. A saved rule set reloads to a rewriter that proposes the same rewrites on every circuit.",
 ["programs","configurations"],
 "every circuit x format/encoding option; every rule set",
 "Tests store and load one or two circuits and one small rule set.",
 ["tket/src/serialize.rs","tket/src/rewrite/ecc_rewriter.rs","tket/src/optimiser/badger/eq_circ_class.rs","tket/src/optimiser/badger/qtz_circuit.rs","compile-rewriter/src/main.rs"],
 [("envelope format with entrypoint; binary rewriter format","tket/src/serialize.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
import sys
assert all(len(p["title"])<=80 for p in P), [p["title"] for p in P if len(p["title"])>80]
