------------------------------ MODULE QueueTrace -----------------------------
(* Histories of calls on the real queue replayed on the state machine of PQueue.tla.  Where several    *)
(* entries tie the machine may do either, so the set of states that explain the answers so far is      *)
(* kept; a history is accepted while it is not empty.                                                   *)
(*  case: cap, n (number of best states tracked, -1: none), ev : events, best : hashes of the final     *)
(*  list of best states.  event: [k, h, c, ok, len, min, max, acc]; after each call the queue told its  *)
(*  length, the cheapest and dearest cost (-1: none) and whether a probe cost would be accepted.        *)
EXTENDS PQueue, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, S, verdict
vars == <<c, k, S, verdict>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ k = 1 /\ S = {Empty} /\ verdict = ""
After(s, e) ==
  CASE e.k = "push" -> {r.s : r \in {r \in Push(s, [h |-> e.h, c |-> e.c], Case.cap) : r.ok = e.ok}}
    [] e.k = "pop" -> IF e.ok THEN {r.s : r \in {r \in Pop(s) : r.e = [h |-> e.h, c |-> e.c]}} ELSE IF s.q = {} THEN {s} ELSE {}
    [] e.k = "peek" -> IF e.ok THEN (IF [h |-> e.h, c |-> e.c] \in Cheapest(s.q) THEN {s} ELSE {}) ELSE IF s.q = {} THEN {s} ELSE {}
    [] e.k = "trunc" -> Truncate(s, e.h)
Tells(s, e) ==
  /\ e.len = Cardinality(s.q) /\ e.seen = Cardinality(s.seen)
  /\ e.max = IF s.q = {} THEN -1 ELSE MaxCost(s.q)
  /\ e.full = (Cardinality(s.q) >= Case.cap)
  /\ e.acc = (Case.cap > 0 /\ (Cardinality(s.q) < Case.cap \/ e.probe < MaxCost(s.q)))
\* what the machine says where it does not depend on how ties were broken
ToldOk(T, e) == \E s \in T : Tells(s, e)
Step(T, e) == {s \in UNION {After(t, e) : t \in T} : Tells(s, e)}
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
BestOk(s) ==
  LET b == Case.best
      es == [i \in 1..Len(b) |-> CHOOSE e \in s.acc : e.h = b[i]]
  IN /\ \A i \in 1..Len(b) : \E e \in s.acc : e.h = b[i]
     /\ \A i, j \in 1..Len(b) : i # j => b[i] # b[j]
     /\ [i \in 1..Len(b) |-> es[i].c] = BestCosts(s.acc, Case.n)
Advance ==
  /\ verdict = "" /\ k <= Len(Case.ev) /\ Step(S, Case.ev[k]) # {}
  /\ S' = Step(S, Case.ev[k]) /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Reject ==
  /\ verdict = "" /\ k <= Len(Case.ev) /\ Step(S, Case.ev[k]) = {}
  /\ verdict' = "rejected" /\ Say("rejected", "no behaviour of the queue explains call " \o ToString(k) \o ": " \o ToString(Case.ev[k]) \o " in " \o ToString(S))
  /\ UNCHANGED <<c, k, S>>
Finish ==
  /\ verdict = "" /\ k > Len(Case.ev)
  /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad)
     ELSE IF Case.n < 0 \/ \E s \in S : BestOk(s) THEN verdict' = "ok" /\ Say("ok", "")
     ELSE verdict' = "rejected" /\ Say("rejected", "list of best states " \o ToString(Case.best) \o " of " \o ToString({s.acc : s \in S}))
  /\ UNCHANGED <<c, k, S>>
Next == Advance \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == \A s \in S : Cardinality(s.q) <= Case.cap
=============================================================================
