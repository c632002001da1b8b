------------------------------- MODULE PQModel ------------------------------
(* The queue on its own, driven by every sequence of offers, removals and truncations: what the       *)
(* specification itself guarantees.                                                                    *)
EXTENDS PQueue, TLC
CONSTANTS Cap, Cost
\* two sets of costs per hash, with ties
CostA == [h \in 1..5 |-> IF h < 3 THEN 1 ELSE IF h < 5 THEN 2 ELSE 0]
CostB == [h \in 1..6 |-> h \div 2]
VARIABLES s, off, given, last
vars == <<s, off, given, last>>
Entry(h) == [h |-> h, c |-> Cost[h]]
Init == s = Empty /\ off = {} /\ given = {} /\ last = 0
DoPush == \E h \in DOMAIN Cost : \E r \in Push(s, Entry(h), Cap) : s' = r.s /\ off' = off \cup {Entry(h)} /\ UNCHANGED <<given, last>>
DoPop == \E r \in Pop(s) : s' = r.s /\ given' = given \cup {r.e} /\ last' = r.e.c /\ UNCHANGED off
DoTrunc == \E n \in 0..Cap : \E t \in Truncate(s, n) : s' = t /\ UNCHANGED <<off, given, last>>
Next == DoPush \/ DoPop \/ DoTrunc
Spec == Init /\ [][Next]_vars
Bounded == Cardinality(s.q) <= Cap
OneCost == \A e, f \in s.acc : e.h = f.h => e = f
NotAgain == s.q \cap given = {}
Known == s.q \subseteq s.acc /\ given \subseteq s.acc /\ s.seen = {e.h : e \in s.acc}
\* with room for n entries the n cheapest accepted are the n cheapest offered
BestIsTrue == \A n \in 1..Cap : BestCosts(s.acc, n) = BestCosts(off, n)
=============================================================================
