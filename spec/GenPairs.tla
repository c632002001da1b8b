------------------------------- MODULE GenPairs -------------------------------
(* Every ordered pair of operations that share a qubit, with a gate in front of the first one that leaves room for the     *)
(* second to move: the smallest programs in which exchanging two operations shows (C09), and every operation in every      *)
(* placement for the passes that look at neighbours.  Printed as register programs for the harness.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
N == 3
Plain1 == {"H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg"}
Rots == {"Rx", "Ry", "Rz"}
Two == {"CX", "CY", "CZ"}
Ops == Plain1 \cup Rots \cup Two \cup {"CRz", "Toffoli", "Measure", "Reset", "noop"}
Arity(g) == IF g \in Two \cup {"CRz"} THEN 2 ELSE IF g = "Toffoli" THEN 3 ELSE 1
Place(k) == {s \in [1..k -> 0..N-1] : \A i, j \in 1..k : i # j => s[i] # s[j]}
VARIABLES a, b, pa, pb, h, done
vars == <<a, b, pa, pb, h, done>>
\* the first operation may be placed in any order on the first qubits (renaming qubits changes nothing)
Canon(s) == \A i \in DOMAIN s : s[i] < Len(s)
Init == /\ a \in Ops /\ b \in Ops
        /\ pa = [i \in 1..Arity(a) |-> i - 1]
        /\ pb \in Place(Arity(b))
        /\ \E i \in DOMAIN pa, j \in DOMAIN pb : pa[i] = pb[j]
        /\ h \in 0..N-1
        /\ \E i \in DOMAIN pa : pa[i] = h \/ Arity(a) = 1
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, pa, pb, h>>
Spec == Init /\ [][Next]_vars
St(op, i, o, p) == [Op |-> [op |-> op, i |-> i, o |-> o, p |-> p, s |-> ""]]
IsRot(g) == g \in Rots \cup {"CRz"}
Ins(g, p, f) == IF IsRot(g) THEN p \o <<f>> ELSE p
Outs(g, p, m) == IF g = "Measure" THEN p \o <<m>> ELSE p
\* variables: qubits 0..N-1, angles N and N+1, outcomes N+2 and N+3
Body == <<St("cF", <<>>, <<N>>, <<642>>), St("cF", <<>>, <<N + 1>>, <<1374>>),
          St("H", <<h>>, <<h>>, <<>>),
          St(a, Ins(a, pa, N), Outs(a, pa, N + 2), <<>>), St(b, Ins(b, pb, N + 1), Outs(b, pb, N + 3), <<>>)>>
Res == [i \in 1..N |-> i - 1] \o (IF a = "Measure" THEN <<N + 2>> ELSE <<>>) \o (IF b = "Measure" THEN <<N + 3>> ELSE <<>>)
Prog == "{\"funcs\":[{\"name\":\"main\",\"vars\":[\"Q\",\"Q\",\"Q\",\"F\",\"F\",\"B\",\"B\"],\"ins\":[0,1,2],\"outs\":" \o ToJson(Res)
         \o ",\"body\":" \o ToJson(Body) \o "}],\"order\":true}"
Emit == done => PrintT("GEN " \o Prog)
===============================================================================
