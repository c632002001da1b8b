----------------------------- MODULE CostAlgebra -----------------------------
(* Costs are vectors compared lexicographically, differences are integer vectors.  Each recorded     *)
(* evaluation [a, b, n, add, sub, back, div, cmp, sum] of the real code on costs a and b must agree.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, verdict
vars == <<c, k, verdict>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ k = 1 /\ verdict = ""
Vec(f(_), n) == [j \in 1..n |-> f(j)]
RECURSIVE LexCmp(_, _)
LexCmp(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE LexCmp(Tail(a), Tail(b))
CeilDiv(x, n) == (x + n - 1) \div n
Why(e) ==
  LET d == Len(e.a) IN
  IF e.add # [j \in 1..d |-> e.a[j] + e.b[j]] THEN "sum of two costs"
  ELSE IF e.sub # [j \in 1..d |-> e.a[j] - e.b[j]] THEN "difference of two costs"
  ELSE IF e.back # e.a THEN "b + (a - b) is not a"
  ELSE IF e.down # e.b THEN "a + (b - a) is not b"
  ELSE IF e.div # [j \in 1..d |-> CeilDiv(e.a[j], e.n)] THEN "division by " \o ToString(e.n) \o " gives " \o ToString(e.div)
  ELSE IF e.cmp # LexCmp(e.a, e.b) THEN "order of costs"
  ELSE IF e.sum # [j \in 1..d |-> 2 * e.a[j] + e.b[j]] THEN "sum of a list of costs"
  ELSE IF e.dsum # [j \in 1..d |-> 2 * (e.a[j] - e.b[j])] THEN "sum of differences"
  ELSE IF e.usz # e.a[1] \/ e.dsz # e.a[1] - e.b[1] THEN "leading component"
  ELSE ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Eval == /\ verdict = "" /\ k <= Len(Case.evals) /\ Why(Case.evals[k]) = "" /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Wrong == /\ verdict = "" /\ k <= Len(Case.evals) /\ Why(Case.evals[k]) # "" /\ verdict' = "rejected"
         /\ Say("rejected", Why(Case.evals[k]) \o " for " \o ToString(Case.evals[k])) /\ UNCHANGED <<c, k>>
Done == /\ verdict = "" /\ k > Len(Case.evals) /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, k>>
Next == Eval \/ Wrong \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
