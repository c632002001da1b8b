------------------------------ MODULE ExprTrace ------------------------------
(* Expressions for copyable values.  The machine grows, from the operation that defines the value, the set of operations  *)
(* the value is computed by: it goes backwards through values, and stops at allowed inputs, at excluded operations, at       *)
(* operations with linear values and at the border of the scope.  The recorded expression has to be this set, with the       *)
(* values crossing its boundary as inputs and outputs, in the documented order; it is refused exactly when it is not convex. *)
(*  nodes : <<[in (in the scope), pure, ins : <<<<from (0: outside the region), port>>>>, ext : <<output used by the region's *)
(*             output>>, pre : <<all predecessors>>, call]>> in topological order                                             *)
(*  asks : <<[o, allowed : <<<<node, port>>>>, excl : <<nodes>>, kind, w, ins : <<<<<<node, port>>>>>>, outs, nodes, calls, why]>>*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, set, verdict
vars == <<c, k, set, verdict>>
Case == Cases[c]
N == Case.nodes
A == Case.asks[k]
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> Len(Case.asks), detail |-> d]))
Init == c \in 1..Len(Cases) /\ k = 1 /\ set = {} /\ verdict = ""
Allowed == ToSet(A.allowed)
Excl == ToSet(A.excl)
Fit(n) == n # 0 /\ N[n].in /\ N[n].pure /\ n \notin Excl
Ins(n) == {<<n, i>> : i \in 1..Len(N[n].ins)}
From(u) == N[u[1]].ins[u[2]]
Stop(u) == u \in Allowed \/ ~Fit(From(u)[1])
Inputs(s) == {u \in UNION {Ins(n) : n \in s} : Stop(u)}
Inner(s) == (UNION {Ins(n) : n \in s}) \ Inputs(s)
Uses(o) == {u \in UNION {Ins(n) : n \in 1..Len(N)} : From(u) = o}
\* uses of a value of the set that do not lie within it
Leaving(s, o) == {u \in Uses(o) : u \notin Inner(s)}
Outs(s) == {o \in {<<n, p>> \in s \X (1..8) : p <= Len(N[n].ext)} : Leaving(s, o) # {} \/ N[o[1]].ext[o[2]]}
RECURSIVE Below(_, _)
Below(todo, acc) == IF todo = {} THEN acc ELSE LET new == {t \in 1..Len(N) : t \notin acc /\ ToSet(N[t].pre) \cap todo # {}} IN Below(new, acc \cup new)
\* a path that leaves the set does not enter it again
Convex(s) == LET first == {u[1] : u \in UNION {Leaving(s, o) : o \in Outs(s)}}
                 out == {t \in 1..Len(N) : t \notin s /\ ToSet(N[t].pre) \cap s # {}}
             IN first \cap s = {} /\ Below(out \cup first, out \cup first) \cap s = {}
Class(u) == IF u \in Allowed THEN <<0, CHOOSE i \in 1..Len(A.allowed) : A.allowed[i] = u>>
            ELSE IF From(u)[1] \in Excl THEN <<1, CHOOSE i \in 1..Len(A.excl) : A.excl[i] = From(u)[1]>> ELSE <<2, 0>>
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Flat(q) == [i \in 1..Len(q) |-> q[i][1]]
Why == IF A.kind = "panic" THEN "fails: " \o A.why
  ELSE IF ~Fit(A.o[1]) THEN (IF A.kind # "wire" \/ A.w # A.o THEN "not the plain wire" ELSE "")
  ELSE IF A.kind = "wire" THEN "a plain wire instead of an expression"
  ELSE IF A.kind = "error" THEN (IF Convex(set) THEN "a convex expression is refused: " \o A.why ELSE "")
  ELSE IF ~Convex(set) THEN "an expression that is not convex is accepted"
  ELSE IF ToSet(A.nodes) # set \/ Len(A.nodes) # Cardinality(set) THEN "the operations differ: " \o ToString(set)
  ELSE IF \E i, j \in 1..Len(A.nodes) : i < j /\ A.nodes[j] \in ToSet(N[A.nodes[i]].pre) THEN "the operations are not in topological order"
  ELSE IF \E i \in 1..Len(A.ins) : Len(A.ins[i]) # 1 THEN "inputs are merged"
  ELSE LET ins == Flat(A.ins) IN
       IF ToSet(ins) # Inputs(set) \/ Len(ins) # Cardinality(Inputs(set)) THEN "the inputs differ: " \o ToString(Inputs(set))
       ELSE IF \E i \in 1..(Len(ins) - 1) : ~Leq(Class(ins[i]), Class(ins[i + 1])) THEN "the inputs are not in the documented order"
       ELSE IF ToSet(A.outs) \ {A.o} # Outs(set) \ {A.o} \/ Len(A.outs) # Cardinality(ToSet(A.outs)) THEN "the outputs differ: " \o ToString(Outs(set))
       ELSE IF A.outs = <<>> \/ A.outs[1] # A.o \/ A.w # A.o THEN "the first output is not the value"
       ELSE IF ToSet(A.calls) # {n \in set : N[n].call} THEN "the function calls differ"
       ELSE ""
Start == /\ verdict = "" /\ k <= Len(Case.asks) /\ set = {}
         /\ set' = {A.o[1]} /\ UNCHANGED <<c, k, verdict>>
More == {From(u)[1] : u \in Inner(set)} \ set
Grow == /\ verdict = "" /\ k <= Len(Case.asks) /\ set # {} /\ Fit(A.o[1]) /\ More # {}
        /\ set' = set \cup More /\ UNCHANGED <<c, k, verdict>>
Judge == /\ verdict = "" /\ k <= Len(Case.asks) /\ set # {} /\ (~Fit(A.o[1]) \/ More = {})
         /\ IF Why # "" THEN verdict' = "rejected" /\ Say("rejected", "expression " \o ToString(k) \o ": " \o Why) /\ UNCHANGED <<c, k, set>>
            ELSE k' = k + 1 /\ set' = {} /\ UNCHANGED <<c, verdict>>
Finish == verdict = "" /\ k > Len(Case.asks) /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, k, set>>
Next == Start \/ Grow \/ Judge \/ Finish
Spec == Init /\ [][Next]_vars
\* all that the set reads from outside are its inputs
Closed == (verdict = "" /\ k <= Len(Case.asks) /\ set # {} /\ Fit(A.o[1]) /\ More = {}) => \A n \in set : Fit(n)
=============================================================================
