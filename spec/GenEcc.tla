------------------------------- MODULE GenEcc -------------------------------
(* Circuits over a gate set, enumerated up to the order of gates that share no qubit, with the operator they implement up   *)
(* to global phase: the operator is computed exactly on the maximally entangled state and scaled so that its first nonzero  *)
(* amplitude is 1.  Circuits with equal keys form the equivalence classes the rewriter gets as rules (C01-C03).             *)
EXTENDS QState, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Set == IOEnv.GEN_SET
N == CASE Set = "cx3" -> 3 [] OTHER -> 2
L == CASE IOEnv.GEN_L = "2" -> 2 [] IOEnv.GEN_L = "3" -> 3 [] IOEnv.GEN_L = "4" -> 4 [] IOEnv.GEN_L = "5" -> 5
One == CASE Set = "cliff" -> {"H", "X"} [] Set = "phase" -> {"H", "S", "Sdg", "T", "Tdg", "Z"} [] Set = "cx3" -> {} [] Set = "pauli" -> {"X", "Y", "Z", "V"}
Two == CASE Set = "phase" -> {"CZ"} [] Set = "pauli" -> {"CX", "CY"} [] OTHER -> {"CX"}
Qs == 1..N
Sym(g) == g = "CZ"
Gates == {<<g, <<a>>>> : g \in One, a \in Qs} \cup {<<g, <<a, b>>>> : g \in Two, a \in Qs, b \in Qs}
Ok(x) == Len(x[2]) = 1 \/ (x[2][1] # x[2][2] /\ (Sym(x[1]) => x[2][1] < x[2][2]))
All == {x \in Gates : Ok(x)}
Qubits(x) == {x[2][i] : i \in DOMAIN x[2]}
\* gates on disjoint qubits come in the order of their first qubits
Low(x) == IF Len(x[2]) = 1 THEN x[2][1] ELSE IF x[2][1] < x[2][2] THEN x[2][1] ELSE x[2][2]
Canon(t, x) == IF t = <<>> THEN TRUE ELSE LET y == t[Len(t)] IN IF Qubits(y) \cap Qubits(x) # {} THEN TRUE ELSE Low(y) < Low(x)
M(g) == CASE g = "H" -> MH [] g = "X" -> MX [] g = "Y" -> MY(1) [] g = "Z" -> MPh(4096, 1) [] g = "S" -> MPh(2048, 1) [] g = "Sdg" -> MPh(-2048, 1)
          [] g = "T" -> MPh(1024, 1) [] g = "Tdg" -> MPh(-1024, 1) [] g = "V" -> MRx(1024, 1)
Act(w, x) == IF Len(x[2]) = 1 THEN ApplyV(w, x[2][1], M(x[1]), <<>>)
             ELSE ApplyV(w, x[2][2], IF x[1] = "CX" THEN MX ELSE IF x[1] = "CY" THEN MY(1) ELSE MPh(4096, 1), <<x[2][1]>>)
\* |b>|b> : system qubits in positions 1..N, reference in N+1..2N
Start == TLCEval([i \in 1..P2(2 * N) |-> IF ((i - 1) % P2(N)) = ((i - 1) \div P2(N)) THEN 1 ELSE 0])
RECURSIVE FPow(_, _)
FPow(a, k) == IF k = 0 THEN 1 ELSE LET h == FPow((a * a) % P, k \div 2) IN IF k % 2 = 1 THEN (a * h) % P ELSE h
Key(w) == LET f == w[CHOOSE i \in 1..Len(w) : w[i] # 0 /\ \A j \in 1..(i - 1) : w[j] = 0]
              inv == FPow(f, P - 2)
          IN [i \in 1..Len(w) |-> (w[i] * inv) % P]
VARIABLES s, w
vars == <<s, w>>
Init == s = <<>> /\ w = Start
Next == Len(s) < L /\ \E x \in All : Canon(s, x) /\ s' = Append(s, x) /\ w' = Act(w, x)
Spec == Init /\ [][Next]_vars
Emit == PrintT("GEN " \o ToJson([n |-> N, gates |-> [i \in 1..Len(s) |-> [g |-> s[i][1], q |-> [k \in DOMAIN s[i][2] |-> s[i][2][k] - 1]]], key |-> Key(w)]))
=============================================================================
