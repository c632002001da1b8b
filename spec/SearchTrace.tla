----------------------------- MODULE SearchTrace ----------------------------
(* Runs of the real backtracking optimiser over a finite search space, replayed as behaviours of       *)
(* best-first search over the queue of PQueue.tla.                                                      *)
(*  case: nodes : <<[h, c, next : <<node>>]>> (h = -1: the state has no hash, c = -1: no cost)          *)
(*        start, cap, maxv (-1: none), n (best states tracked, -1: none)                                *)
(*        visits : states expanded, in order;  best : the state returned;  list : the n best returned   *)
EXTENDS PQueue, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, S, gen, verdict
vars == <<c, k, S, gen, verdict>>
Case == Cases[c]
Node(v) == Case.nodes[v]
Valid(v) == Node(v).h >= 0 /\ Node(v).c >= 0
Ent(v) == [h |-> Node(v).h, c |-> Node(v).c, id |-> v]
RECURSIVE Offer(_, _)
Offer(T, vs) == IF vs = <<>> THEN T
                ELSE IF ~Valid(Head(vs)) THEN Offer(T, Tail(vs))
                ELSE Offer({r.s : r \in UNION {Push(s, Ent(Head(vs)), Case.cap) : s \in T}}, Tail(vs))
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ verdict = ""
        /\ S = Offer({Empty}, <<Case.start>>) /\ gen = {Case.start}
Expand(T, v) == {r.s : r \in {r \in UNION {Pop(s) : s \in T} : r.e.id = v}}
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Over == k > Len(Case.visits)
Visit ==
  /\ verdict = "" /\ ~Over
  /\ LET v == Case.visits[k] IN
     IF Case.maxv >= 0 /\ k > Case.maxv THEN
        verdict' = "rejected" /\ Say("rejected", "more states expanded than the limit allows") /\ UNCHANGED <<c, k, S, gen>>
     ELSE IF Expand(S, v) = {} THEN
        verdict' = "rejected" /\ Say("rejected", "expansion " \o ToString(k) \o " of state " \o ToString(v) \o " is not the next best in " \o ToString({s.q : s \in S})) /\ UNCHANGED <<c, k, S, gen>>
     ELSE /\ S' = Offer(Expand(S, v), Node(v).next) /\ gen' = gen \cup Range(Node(v).next)
          /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
\* states with equal hashes are one state; then their costs agree
Useful == {v \in gen : Valid(v) /\ \A u \in gen : Node(u).h = Node(v).h => Node(u).c = Node(v).c}
ListOk(s) ==
  LET b == Case.list
  IN /\ \A i \in 1..Len(b) : Ent(b[i]) \in s.acc
     /\ \A i, j \in 1..Len(b) : i # j => b[i] # b[j]
     /\ [i \in 1..Len(b) |-> Node(b[i]).c] = BestCosts(s.acc, Case.n)
EndOk(s) == /\ s.q = {} \/ (Case.maxv >= 0 /\ k - 1 >= Case.maxv)
            /\ \E e \in s.acc : e.id = Case.best /\ e \in Cheapest(s.acc)
            /\ Case.n >= 0 => ListOk(s)
Finish ==
  /\ verdict = "" /\ Over
  /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad)
     ELSE IF \E v \in Useful : Node(v).c < Node(Case.best).c THEN
        verdict' = "rejected" /\ Say("rejected", "returned state " \o ToString(Case.best) \o " although a cheaper one was found")
     ELSE IF \E s \in S : EndOk(s) THEN verdict' = "ok" /\ Say("ok", "")
     ELSE verdict' = "rejected" /\ Say("rejected", "stopped early, or wrong list of best states " \o ToString(Case.list) \o ": " \o ToString(S))
  /\ UNCHANGED <<c, k, S, gen>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == \A s \in S : Cardinality(s.q) <= Case.cap
=============================================================================
