"""Registry of the checks: which models and traces decide which property."""
TV = "translation_validation"
MC = "model_checking"
EQ = "TLA+ operational semantics (HugrMachine/Equiv) executed by TLC on programs before and after the real transformation"
TR = "TLA+ specification checked by TLC against behaviours recorded from the real code"
EQN = "Every case is a generated program, executed exhaustively (all measurement outcomes, exact finite-field amplitudes) by the TLA+ machine before and after the real code transformed it."
PYTKETS = [dict(module="GenPytket", name="pk_all", params={"quick": dict(L=2), "thorough": dict(L=2)}),
           dict(module="GenPytket", name="pk_long", params={"quick": dict(L=5), "thorough": dict(L=5)}, simulate=True, args={"quick": ["-simulate", "num=60", "-depth", "6"], "thorough": ["-simulate", "num=1000", "-depth", "6"]})]
def GX(name, full, quick, thorough, sim=None):
    g = dict(module="GenExpr", name=name, params={t: dict(L=l, FULL=full) for t, l in (("quick", quick), ("thorough", thorough))})
    if sim:
        g.update(simulate=True, args={t: ["-simulate", "num=%d" % n, "-depth", str(l + 1)] for t, n, l in (("quick", sim[0], quick), ("thorough", sim[1], thorough))})
    return g
EXPRS = [GX("ex_four", 0, 4, 4), GX("ex_all", 0, 5, 6), GX("ex_full", 1, 3, 4), GX("ex_long", 1, 10, 12, (400, 4000))]
def GB(name, kind, wild, modes, quick, thorough, sim=None):
    """a family of borrow/return sequences printed by GenBorrow.tla"""
    g = dict(module="GenBorrow", name="borrow_" + name, params={t: dict(L=l, KIND=kind, WILD=wild, MODES=modes) for t, l in (("quick", quick), ("thorough", thorough))})
    if sim:
        g.update(simulate=True, args={t: ["-simulate", "num=%d" % n, "-depth", str(l + 1)] for t, n, l in (("quick", sim[0], quick), ("thorough", sim[1], thorough))})
    return g
BORROWS = dict(q0=GB("q0", "q", 0, "c", 5, 6), q1=GB("q1", "q", 1, "c", 5, 5), i0=GB("i0", "i", 0, "c", 5, 5), i1=GB("i1", "i", 1, "c", 4, 5),
               n0=GB("n0", "n", 0, "c", 5, 6), n1=GB("n1", "n", 1, "c", 5, 5), m1=GB("m1", "i", 1, "cku", 4, 5), long=GB("long", "q", 0, "c", 12, 14, (400, 3000)))
ECCS = [dict(module="GenEcc", name="ecc_" + n, params={t: dict(SET=n, L=l) for t, l in (("quick", q), ("thorough", th))}) for n, q, th in (("cliff", 4, 5), ("phase", 3, 4), ("cx3", 4, 4), ("pauli", 3, 3))]
CHECKS = {
 "C01": dict(level=TV, technique=EQ + "; GenEcc.tla enumerates the rule classes", note="For rule sets enumerated by the specification, written by hand (angles, measurements, allocation) and shipped with the repository, every strategy and every mode (one thread, several, split into chunks, all limits), generated circuits are optimised by the real optimiser and input and result are executed.", generate=ECCS),
 "C02": dict(level=MC, technique=TR + " (OptTrace.tla); GenEcc.tla enumerates the rule classes", note="The circuits that the real rewrites lead to are handed to the specification as a graph; its search through them gives the lowest cost, which complete runs of the real optimiser have to reach; costs are recomputed from the operations, and no run may end above its input.", generate=ECCS),
 "C03": dict(level=MC, technique=TR + " (RewriteTrace.tla); GenEcc.tla enumerates the rule classes; " + EQ, note="For rule sets enumerated by the specification (or written by hand with angles, measurements, allocation) and generated circuits: every proposal and every strategy result is recomputed from the specification's acceptance rules, and executed.", generate=ECCS),
 "C04": dict(level=MC, technique=TR + " (MatchTrace.tla)", note="For generated circuits and pattern sets (random and cut out of the circuit) the specification grows all embeddings and keeps the convex ones; the matcher, built in several ways, has to report exactly these."),
 "C05": dict(level=MC, technique=TR + " (QueueTrace.tla over PQueue.tla; PQModel.tla checked exhaustively; GenQueue.tla enumerates the histories)", note="Every history of queue calls up to a length is enumerated by the specification, executed on the real queue and replayed as a behaviour of PQueue.tla; long random histories too.",
   generate=[dict(module="GenQueue", name="queue", params=dict(quick=dict(L=4, H=6), thorough=dict(L=6, H=6)))], models=[dict(module="PQModel", cfg="PQModel1.cfg"), dict(module="PQModel", cfg="PQModel2.cfg")]),
 "C06": dict(level=MC, technique="QueueThread.tla model checked over all interleavings (safety and termination); " + TR + " (WorkerTrace.tla, BadgerTrace.tla)",
   note="Runs of the real queue thread with 1-3 real workers under random pacing and stop times are replayed as behaviours of the protocol; whole optimiser runs over synthetic search spaces for every stop reason.",
   models=[dict(module="QueueThread", cfg="QueueThread%d.cfg" % i) for i in (1, 2, 3)]),
 "C07": dict(level=MC, technique=TR + " (SearchTrace.tla over PQueue.tla)", note="Every search space on three states and random larger ones, with every option, searched by the real optimiser; its expansions are replayed as best-first search over PQueue.tla."),
 "C08": dict(level=MC, technique=TR + " (HashClass.tla)", note="Structural classes of circuits (same operation, fed port by port from the same classes) are computed by the specification for families of circuits: re-insertions, renumberings, reloads and single edits; the real hash has to separate exactly the classes."),
 "C09": dict(level=TV, technique=EQ + "; GenPairs.tla enumerates all pairs of operations sharing a qubit", note=EQN + " The bag of operations is compared too.", generate=[dict(module="GenPairs", name="pairs")]),
 "C10": dict(level=TV, technique=EQ + "; Partition.tla decides the split", note=EQN),
 "C11": dict(level=MC, technique=TR + " (CommandTrace.tla)", note="Command iterations of every region of generated programs are replayed as behaviours of the TLA+ unit-tracking machine."),
 "C12": dict(level=TV, technique=EQ + "; GenBorrow.tla generates the programs, SquashDone.tla decides completeness", note=EQN + " Borrow/return sequences are enumerated exhaustively up to a length by GenBorrow.tla.", generate=list(BORROWS.values())),
 "C13": dict(level=TV, technique=EQ, note=EQN, generate=[BORROWS["q1"], BORROWS["i1"]]),
 "C14": dict(level=TV, technique=EQ, note=EQN + " The machine runs modified functions itself: controls are carried to every gate, an inverted function is recorded on stand-in qubits and undone in reverse; the resolved program must do the same, with no modifier or global phase left."),
 "C15": dict(level=MC, technique=TR + " (ResourceTrace.tla)", note="The resource scopes of every region (and of random sub-circuits) of generated programs, with the default and with custom flows, are replayed as behaviours of a machine that hands out resources itself; path, port and reachability queries are recomputed."),
 "C16": dict(level=MC, technique=TR + " (ExprTrace.tla, ResourceTrace.tla); " + EQ, note="Expressions for values of generated programs, with random boundaries, are grown by the specification and compared; cut out and put back they must not change the program. Intervals on resource paths are made and extended in the model."),
 "C17": dict(level=TV, technique=TR + " (ViewTrace.tla, CostAlgebra.tla)", note="Views of every region of generated programs are recomputed by the specification; cost algebra over an enumerated grid; ownership by program equivalence."),
 "C22": dict(level=TV, technique=EQ, note="Random programs with every kind of statement, encoded (with and without their nested regions) and put back in place, or written out as a self-contained circuit and read on its own; generated circuits are decoded and encoded again, and run on their registers.", generate=PYTKETS),
 "C20": dict(level=TV, technique=EQ + "; pytket commands are instructions of the same machine", note="Random programs (gates, allocation, measurement, boolean logic, parameter arithmetic, native hardware gates, values used several times, outputs in any order) against the commands their encoding emits, run on the registers."),
 "C21": dict(level=TV, technique=EQ + "; pytket commands are instructions of the same machine", note="Generated pytket circuits (native and opaque gates, symbolic parameters, conditions, classical expressions, boxes, permutations) run command by command on registers, against the decoded program with default, qsystem and hand-written signatures; opaque operations are interpreted from their payload. GenPytket.tla enumerates every pair of commands on every choice of registers.", generate=PYTKETS),
 "C23": dict(level=MC, technique=TR + " (ParamEval.tla, GenExpr.tla)", note="GenExpr.tla enumerates expression texts with their meaning; what the decoder builds, what the encoder writes back, and what it writes for generated arithmetic is run by ParamEval.tla in a finite field under several assignments.", generate=EXPRS),
 "C40": dict(level=TV, technique=TR + " (CodecTrace.tla)", note="Every operation of every extension over a grid and random choices of parameters, every type to a nesting depth, and constants, are written and read in several ways; the machine instantiates the definition that is shipped as data with the parameters and compares signatures, keeps what was written, and compares the definitions in the data with the code's."),
 "C41": dict(level=TV, technique=TR + " (StoreTrace.tla); " + EQ, note="Random histories of saving, loading, and selecting functions (all envelope formats, one or several programs in a file, entrypoints anywhere, metadata) are replayed by the storage machine, which knows the whole content of every program; rule sets are saved and reloaded, and asked about the same circuits; reloaded programs are executed.", generate=ECCS),
 "C30": dict(level=TV, technique=EQ, note=EQN + " Every option combination of the pass is exercised; operations that must be gone are named by the specification's forbid list."),
 "C31": dict(level=TV, technique=EQ, note=EQN + " Every gate on every placement of its qubits, with a grid of angles (multiples of 1/2048 half turn), bare, under a condition and in nested regions; the composite builders too."),
 "C32": dict(level=TV, technique=EQ, note=EQN + " The machine keeps the set of outstanding deferred values: a read or release of one that is not outstanding, or one left over at the end, is a fault."),
 "C33": dict(level=TV, technique=EQ, note=EQN + " Barriers are recorded as sets of (qubit, gates passed) and compared between source and lowered program."),
 "C35": dict(level=TV, qis=True, technique=EQ, note=EQN + " The machine code runs on a stand-in for the quantum runtime that only records calls, once for every sequence of measurement outcomes; the recorded tree of calls is a program of the specification's machine."),
 "C38": dict(level=TV, qis=True, technique=EQ, note=EQN + " The machine code runs on a stand-in for the external runtime that numbers contexts and calls, answers with fixed functions of those numbers, and may fail at a request; what is asked of it is compared with what the specification's machine asks for when it runs the source program."),
 "C34": dict(level=TV, technique=TR + " (OrderChain.tla) and " + EQ, note="Every region of every compiled program is replayed by the scheduler of OrderChain.tla; behaviour is compared by Equiv.tla."),
}
NOT_APPLICABLE = {
}
