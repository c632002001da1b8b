------------------------------- MODULE PQueue -------------------------------
(* The bounded search queue of the optimisers as a state machine.                                      *)
(*   q    : pending entries [h, c]           seen : hashes of everything accepted                      *)
(*   acc  : everything ever accepted (the candidates for the list of best states)                      *)
(* Every operation gives the set of successor states, each with the answer the caller sees.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Empty == [q |-> {}, seen |-> {}, acc |-> {}]
Cheapest(q) == {e \in q : \A f \in q : e.c <= f.c}
Dearest(q) == {e \in q : \A f \in q : e.c >= f.c}
MaxCost(q) == (CHOOSE e \in q : e \in Dearest(q)).c
MinCost(q) == (CHOOSE e \in q : e \in Cheapest(q)).c
Take(s, e) == [q |-> s.q \cup {e}, seen |-> s.seen \cup {e.h}, acc |-> s.acc \cup {e}]
\* offering an entry: a set of [s, ok]
Push(s, e, cap) ==
  IF e.h \in s.seen \/ cap = 0 THEN {[s |-> s, ok |-> FALSE]}
  ELSE IF Cardinality(s.q) < cap THEN {[s |-> Take(s, e), ok |-> TRUE]}
  ELSE \* full: what is given up has maximal cost, be it the newcomer or one of those held
       (IF e.c >= MaxCost(s.q) THEN {[s |-> s, ok |-> FALSE]} ELSE {})
       \cup (IF e.c <= MaxCost(s.q) THEN {[s |-> Take([s EXCEPT !.q = @ \ {d}], e), ok |-> TRUE] : d \in Dearest(s.q)} ELSE {})
\* taking the next entry: a set of [s, e]
Pop(s) == {[s |-> [s EXCEPT !.q = @ \ {e}], e |-> e] : e \in Cheapest(s.q)}
\* dropping entries of maximal cost until at most n are held
Truncate(s, n) ==
  IF Cardinality(s.q) <= n THEN {s}
  ELSE LET drop == Cardinality(s.q) - n
       IN {[s EXCEPT !.q = @ \ d] : d \in {d \in SUBSET s.q : Cardinality(d) = drop /\ \A e \in d, f \in s.q \ d : e.c >= f.c}}
Sorted(costs) == SortSeq(costs, <)
\* costs of the n cheapest entries of a set, ascending
BestCosts(es, n) == LET all == Sorted([i \in 1..Cardinality(es) |-> SetToSeq(es)[i].c])
                    IN SubSeq(all, 1, IF n < Len(all) THEN n ELSE Len(all))
=============================================================================
