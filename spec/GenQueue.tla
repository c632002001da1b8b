------------------------------- MODULE GenQueue -----------------------------
(* Every history of calls on the queue up to a length, over a few hashes whose costs tie: the inputs of QueueTrace.        *)
(* A symmetric history (the next hash of the same cost used first) is printed once.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
L == atoi(IOEnv.GEN_L)
H == atoi(IOEnv.GEN_H)
\* cost of hash h: 1 1 2 2 3 3 ...; pushing "again" offers the hash with another cost
CostOf(h) == (h + 1) \div 2
VARIABLES ops
vars == <<ops>>
Pushed == {ops[i].h : i \in {j \in 1..Len(ops) : ops[j].k = "push"}}
Hs == {h \in 1..H : h % 2 = 1 \/ h - 1 \in Pushed}
Moves == {[k |-> "push", h |-> h, c |-> CostOf(h)] : h \in Hs} \cup {[k |-> "pop", h |-> 0, c |-> 0]}
         \cup {[k |-> "trunc", h |-> n, c |-> 0] : n \in {0, 1}} 
         \cup {[k |-> "push", h |-> h, c |-> 0] : h \in {g \in Pushed : g = 1}}
Init == ops = <<>>
Next == Len(ops) < L /\ \E m \in Moves : ops' = Append(ops, m)
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = L => PrintT("GEN " \o ToJson(ops))
==============================================================================
