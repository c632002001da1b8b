----------------------------- MODULE BadgerTrace ----------------------------
(* Parallel runs of the whole optimiser over a synthetic search space: which circuits the workers       *)
(* processed, in the order they started, and the circuit returned.                                       *)
(*  case: nodes [h, c, next], start, cap, visits, best, complete (the search was left to run dry before   *)
(*        it was stopped and the queue had room for everything)                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, gen, seen, verdict
vars == <<c, k, gen, seen, verdict>>
Case == Cases[c]
Node(v) == Case.nodes[v]
Init == c \in 1..Len(Cases) /\ k = 1 /\ gen = {Case.start} /\ seen = {} /\ verdict = ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Over == k > Len(Case.visits)
Reason == LET v == Case.visits[k] IN
  IF v \notin gen THEN "state " \o ToString(v) \o " processed before any worker produced it"
  ELSE IF Node(v).h \in seen THEN "state " \o ToString(v) \o " processed twice" ELSE ""
Process == /\ verdict = "" /\ ~Over
           /\ IF Reason # "" THEN verdict' = "rejected" /\ Say("rejected", Reason) /\ UNCHANGED <<c, k, gen, seen>>
              ELSE LET v == Case.visits[k] IN gen' = gen \cup Range(Node(v).next) /\ seen' = seen \cup {Node(v).h} /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Lowest == Min({Node(v).c : v \in gen})
Finish ==
  /\ verdict = "" /\ Over
  /\ LET r == IF "bad" \in DOMAIN Case THEN Case.bad
              ELSE IF Case.best \notin gen THEN "returned a state no worker produced"
              ELSE IF Node(Case.best).c > Node(Case.start).c THEN "returned a worse state than the input"
              ELSE IF Case.complete /\ {Node(v).h : v \in gen} # seen THEN "states never processed: " \o ToString({v \in gen : Node(v).h \notin seen})
              ELSE IF Case.complete /\ Node(Case.best).c # Lowest THEN "a cheaper state was produced than the one returned"
              ELSE ""
     IN IF r = "" THEN verdict' = "ok" /\ Say("ok", "") ELSE verdict' = "rejected" /\ Say("rejected", r)
  /\ UNCHANGED <<c, k, gen, seen>>
Next == Process \/ Finish
Spec == Init /\ [][Next]_vars
NoTwice == Cardinality(seen) = k - 1
=============================================================================
