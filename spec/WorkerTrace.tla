----------------------------- MODULE WorkerTrace ----------------------------
(* Runs of the real queue thread with real workers, replayed on the protocol of QueueThread.tla.  The  *)
(* events are those the workers and the main thread can see; what the queue thread does in between     *)
(* (taking a batch, handing out an entry) is found by following every possibility.                     *)
(*  case: nodes [c, next], cap, workers, ev : [k, w, v, b], log : nodes announced as new best,          *)
(*        count : final [batches, seen, held]                                                           *)
(*  events: send (w, batch b; 0 is main), wait (w), got (w, v), end (w), refused (w, b), close           *)
EXTENDS PQueue, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, S, verdict
vars == <<c, k, S, verdict>>
Case == Cases[c]
Ent(v) == [h |-> v, c |-> Case.nodes[v].c, id |-> v]
RECURSIVE Offers(_, _)
Offers(T, ws) == IF ws = <<>> THEN T ELSE Offers({r.s : r \in UNION {Push(t, Ent(Head(ws)), Case.cap) : t \in T}}, Tail(ws))
\* state: pq, chan, run, wk : worker -> 0 busy, -1 waiting, v > 0: handed v but not yet seen
Start == [pq |-> Empty, chan |-> <<>>, run |-> TRUE, wk |-> [w \in 1..Case.workers |-> 0]]
Init == c \in 1..Len(Cases) /\ k = 1 /\ S = {Start} /\ verdict = ""
Deq(s) == IF ~s.run \/ s.chan = <<>> THEN {}
          ELSE IF Head(s.chan) = <<>> THEN {[s EXCEPT !.run = FALSE, !.chan = Tail(@)]}
          ELSE {[s EXCEPT !.pq = p, !.chan = Tail(@)] : p \in Offers({s.pq}, Head(s.chan))}
HandTo(s, w) == IF s.run /\ s.wk[w] = -1 THEN {[s EXCEPT !.pq = r.s, !.wk[w] = r.e.id] : r \in Pop(s.pq)} ELSE {}
\* only the hand-outs the events confirm matter: a worker that waits either is handed what it reports next or nothing
NextOf(w) == LET later == {j \in k..Len(Case.ev) : Case.ev[j].w = w /\ Case.ev[j].k \in {"got", "end"}}
             IN IF later = {} THEN 0 ELSE LET e == Case.ev[Min(later)] IN IF e.k = "got" THEN e.v ELSE 0
Silent(s) == Deq(s) \cup UNION {{t \in HandTo(s, w) : t.wk[w] = NextOf(w)} : w \in 1..Case.workers}
RECURSIVE Closure(_, _)
Closure(done, new) == IF new = {} THEN done
                      ELSE LET nx == (UNION {Silent(s) : s \in new}) \ (done \cup new) IN Closure(done \cup new, nx)
After(s, e) ==
  CASE e.k \in {"send"} -> {[s EXCEPT !.chan = Append(@, e.b)]}
    [] e.k = "close" -> {[s EXCEPT !.chan = Append(@, <<>>)]}
    [] e.k = "wait" -> IF s.wk[e.w] = 0 THEN {[s EXCEPT !.wk[e.w] = -1]} ELSE {}
    [] e.k = "got" -> IF s.wk[e.w] = e.v THEN {[s EXCEPT !.wk[e.w] = 0]} ELSE {}
    [] e.k = "end" -> IF ~s.run /\ s.wk[e.w] = -1 THEN {[s EXCEPT !.wk[e.w] = 0]} ELSE {}
    [] e.k = "refused" -> IF ~s.run THEN {s} ELSE {}
Step(e) == UNION {After(s, e) : s \in Closure({}, S)}
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Over == k > Len(Case.ev)
Advance == verdict = "" /\ ~Over /\ Step(Case.ev[k]) # {} /\ S' = Step(Case.ev[k]) /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Reject == /\ verdict = "" /\ ~Over /\ Step(Case.ev[k]) = {} /\ verdict' = "rejected"
          /\ Say("rejected", "event " \o ToString(k) \o " " \o ToString(Case.ev[k]) \o " cannot happen in " \o ToString(S))
          /\ UNCHANGED <<c, k, S>>
\* what reached the queue: the batches offered before it was told to stop
CloseAt == LET cl == {j \in 1..Len(Case.ev) : Case.ev[j].k = "close"} IN IF cl = {} THEN Len(Case.ev) + 1 ELSE Min(cl)
Batches == SelectSeq(SubSeq(Case.ev, 1, CloseAt - 1), LAMBDA e : e.k = "send" /\ e.b # <<>>)
RECURSIVE Better(_, _)
Better(cur, ws) == IF ws = <<>> THEN <<>>
                   ELSE IF cur = -1 \/ Case.nodes[Head(ws)].c < cur THEN <<Head(ws)>> \o Better(Case.nodes[Head(ws)].c, Tail(ws))
                   ELSE Better(cur, Tail(ws))
All == FlattenSeq([i \in 1..Len(Batches) |-> Batches[i].b])
Finish ==
  /\ verdict = "" /\ Over
  /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad)
     ELSE IF Case.log # Better(-1, All) THEN verdict' = "rejected" /\ Say("rejected", "improvements announced " \o ToString(Case.log) \o " instead of " \o ToString(Better(-1, All)))
     ELSE IF Case.count[1] # Len(Batches) THEN verdict' = "rejected" /\ Say("rejected", "batches counted " \o ToString(Case.count[1]))
     ELSE IF \E s \in Closure({}, S) : ~s.run /\ Case.count[2] = Cardinality(s.pq.seen) /\ Case.count[3] = Cardinality(s.pq.q)
        THEN verdict' = "ok" /\ Say("ok", "")
     ELSE verdict' = "rejected" /\ Say("rejected", "final counts " \o ToString(Case.count) \o " in " \o ToString(Closure({}, S)))
  /\ UNCHANGED <<c, k, S>>
Next == Advance \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == \A s \in S : Cardinality(s.pq.q) <= Case.cap
=============================================================================
