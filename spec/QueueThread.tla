----------------------------- MODULE QueueThread ----------------------------
(* The parallel search: workers, the thread that owns the queue, and the main thread, with the         *)
(* channels between them (offers: unbounded, first in first out, the empty batch means stop; hand-outs: *)
(* rendezvous; log: unbounded).  Checked over all interleavings.                                        *)
EXTENDS PQueue, TLC
CONSTANTS Cap, Workers, Graph
\* node -> cost and successors
G1 == [c |-> <<3, 2, 2, 1, 2>>, next |-> <<<<2, 3>>, <<1, 4>>, <<4, 5>>, <<>>, <<2>>>>]
G2 == [c |-> <<2, 1, 2, 1>>, next |-> <<<<2, 3, 4>>, <<3>>, <<1>>, <<3>>>>]
VARIABLES pq, chan, qt, wk, main, log, minc, best, given, done, stopsent
vars == <<pq, chan, qt, wk, main, log, minc, best, given, done, stopsent>>
Ent(v) == [h |-> v, c |-> Graph.c[v], id |-> v]
Offers(s, vs) == LET RECURSIVE F(_, _)
                     F(T, ws) == IF ws = <<>> THEN T ELSE F({r.s : r \in UNION {Push(t, Ent(Head(ws)), Cap) : t \in T}}, Tail(ws))
                 IN F({s}, vs)
\* the improvements a batch brings, in order
Better(m, vs) == LET RECURSIVE F(_, _)
                     F(cur, ws) == IF ws = <<>> THEN <<>>
                                   ELSE IF cur = -1 \/ Graph.c[Head(ws)] < cur THEN <<Head(ws)>> \o F(Graph.c[Head(ws)], Tail(ws))
                                   ELSE F(cur, Tail(ws))
                 IN F(m, vs)
Init == /\ pq = Empty /\ chan = <<<<1>>>> /\ qt = "run" /\ wk = [w \in Workers |-> 0] /\ main = "run" /\ log = <<>>
        /\ minc = -1 /\ best = 1 /\ given = <<>> /\ done = {1} /\ stopsent = FALSE
\* 0: waiting for work, -1: stopped, otherwise working on that node
Dequeue == /\ qt = "run" /\ chan # <<>> /\ chan' = Tail(chan)
           /\ IF Head(chan) = <<>> THEN qt' = "stopped" /\ UNCHANGED <<pq, log, minc, done>>
              ELSE /\ pq' \in Offers(pq, Head(chan)) /\ UNCHANGED qt
                   /\ LET b == Better(minc, Head(chan)) IN log' = log \o b /\ minc' = IF b = <<>> THEN minc ELSE Graph.c[b[Len(b)]]
                   /\ done' = done \cup Range(Head(chan))
           /\ UNCHANGED <<wk, main, best, given, stopsent>>
Hand == /\ qt = "run"
        /\ \E w \in Workers : wk[w] = 0 /\ \E r \in Pop(pq) : pq' = r.s /\ wk' = [wk EXCEPT ![w] = r.e.id] /\ given' = Append(given, r.e.id)
        /\ UNCHANGED <<chan, qt, main, log, minc, best, done, stopsent>>
Result == /\ \E w \in Workers :
              /\ wk[w] > 0
              /\ LET b == Graph.next[wk[w]] IN
                 IF b = <<>> THEN wk' = [wk EXCEPT ![w] = 0] /\ UNCHANGED chan
                 ELSE IF qt = "stopped" THEN wk' = [wk EXCEPT ![w] = -1] /\ UNCHANGED chan
                 ELSE wk' = [wk EXCEPT ![w] = 0] /\ chan' = Append(chan, b)
          /\ UNCHANGED <<pq, qt, main, log, minc, best, given, done, stopsent>>
WorkerStop == /\ qt = "stopped" /\ \E w \in Workers : wk[w] = 0 /\ wk' = [wk EXCEPT ![w] = -1]
              /\ UNCHANGED <<pq, chan, qt, main, log, minc, best, given, done, stopsent>>
Read == /\ main \in {"run", "closing"} /\ log # <<>> /\ log' = Tail(log)
        /\ best' = IF Graph.c[Head(log)] < Graph.c[best] THEN Head(log) ELSE best
        /\ UNCHANGED <<pq, chan, qt, wk, main, minc, given, done, stopsent>>
\* any stop reason: nothing about the state is required
Close == /\ main = "run" /\ main' = "closing" /\ chan' = Append(chan, <<>>) /\ stopsent' = TRUE
         /\ UNCHANGED <<pq, qt, wk, log, minc, best, given, done>>
Join == /\ main = "closing" /\ qt = "stopped" /\ log = <<>> /\ (\A w \in Workers : wk[w] = -1) /\ main' = "done"
        /\ UNCHANGED <<pq, chan, qt, wk, log, minc, best, given, done, stopsent>>
Next == Dequeue \/ Hand \/ Result \/ WorkerStop \/ Read \/ Close \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Dequeue) /\ WF_vars(Hand) /\ WF_vars(Result) /\ WF_vars(WorkerStop) /\ WF_vars(Read) /\ WF_vars(Join)
Once == \A i, j \in 1..Len(given) : i # j => given[i] # given[j]
Bounded == Cardinality(pq.q) <= Cap
\* what was accepted is still held, was handed out, or (queue full) was given up
Accounted == Cap >= Len(Graph.c) => {e.id : e \in pq.acc} = {e.id : e \in pq.q} \cup Range(given)
\* the result is the cheapest of everything that reached the queue
Cheapest1 == main = "done" => Graph.c[best] = Min({Graph.c[v] : v \in done})
NeverWorse == Graph.c[best] <= Graph.c[1]
\* a quiet system has explored everything
Quiet == (qt = "run" /\ chan = <<>> /\ pq.q = {} /\ \A w \in Workers : wk[w] = 0) => (Cap >= Len(Graph.c) => \A v \in Range(given) : Range(Graph.next[v]) \subseteq Range(given))
Stops == stopsent ~> (main = "done")
=============================================================================
