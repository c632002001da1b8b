---------------------------- MODULE ResourceTrace ----------------------------
(* Resources of a region.  The machine walks through the operations in an order that respects all edges and hands out       *)
(* resources itself: a linear value entering the region gets a fresh one, an operation passes the resources of its linear   *)
(* inputs to the outputs its flow says, and all other linear outputs get fresh ones.  The recorded scope is accepted when    *)
(* it names the same resources up to renaming (the map `name`), every copyable value by the wire that defines it, and        *)
(* numbers operations so that positions rise along every resource and never fall along a value.                              *)
(*  nodes : <<[df, pos, kind (name of a custom flow), pre : <<nodes>>,                                                       *)
(*             ins : <<[lin, t, from (0: outside), fp, w, u]>>, outs : <<[lin, t, w, u]>>]>>  in topological order           *)
(*  order : <<<<node, input port>>>> the entering ports; all : all resources as listed                                       *)
(*  paths, reach : answers of the path and reachability queries                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, name, live, verdict
vars == <<c, k, name, live, verdict>>
Case == Cases[c]
N == Case.nodes
Bad == "bad" \in DOMAIN Case
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
\* name : sequence of resources handed out so far (index = number of the model, value = number in the code)
\* live : function from linear wires to model resources
Init == c \in 1..Len(Cases) /\ k = 1 /\ name = <<>> /\ live = [x \in {} |-> 0] /\ verdict = ""
\* ---- which output carries on which input
Preserving(n) == \A i \in 1..(IF Len(n.ins) > Len(n.outs) THEN Len(n.ins) ELSE Len(n.outs)) :
   IF i > Len(n.outs) THEN ~n.ins[i].lin ELSE IF i > Len(n.ins) THEN ~n.outs[i].lin
   ELSE (n.ins[i].lin \/ n.outs[i].lin) => n.ins[i].t = n.outs[i].t
\* the input that output i continues, 0 for none
Source(n, i) == IF ~n.outs[i].lin THEN 0
                ELSE IF n.kind = "exchange" THEN 3 - i
                ELSE IF n.kind = "forget" THEN 0
                ELSE IF Preserving(n) THEN i ELSE 0
\* ---- entering values
Entering == SelectSeq(Case.order, LAMBDA e : N[e[1]].ins[e[2]].lin)
\* entering ports come first, in the order listed
Entered == k = 1
EntryU(j) == N[Entering[j][1]].ins[Entering[j][2]].u
AllEntries == UNION {{<<a, i>> : i \in {i \in 1..Len(N[a].ins) : N[a].ins[i].lin /\ N[a].ins[i].from = 0}} : a \in 1..Len(N)}
EntryReason ==
   IF ToSet(Entering) # AllEntries THEN "entering values differ from the boundary"
   ELSE IF \E j \in 1..Len(Entering) : EntryU(j)[1] # "R" THEN "a linear value without resource"
   ELSE IF \E j \in 1..Len(Entering) : EntryU(j)[2] # j - 1 THEN "resources of the entering values are not numbered in order"
   ELSE ""
\* ---- one operation
\* in port
InReason(n) ==
   IF \E i \in 1..Len(n.ins) : n.ins[i].lin /\ n.ins[i].u[1] # "R" THEN "a linear input without resource"
   ELSE IF \E i \in 1..Len(n.ins) : ~n.ins[i].lin /\ n.ins[i].u # <<"W", n.ins[i].w>> THEN "a copyable input is not named by its wire"
   ELSE IF \E i \in 1..Len(n.ins) : n.ins[i].lin /\ (n.ins[i].w \notin DOMAIN live) THEN "a linear value is used twice"
   ELSE IF \E i \in 1..Len(n.ins) : n.ins[i].lin /\ name[live[n.ins[i].w]] # n.ins[i].u[2] THEN "a value changes its resource between operations"
   ELSE ""
OutReason(n) ==
   LET fresh == {i \in 1..Len(n.outs) : n.outs[i].lin /\ Source(n, i) = 0}
   IN IF \E i \in 1..Len(n.outs) : n.outs[i].lin /\ n.outs[i].u[1] # "R" THEN "a linear output without resource"
      ELSE IF \E i \in 1..Len(n.outs) : ~n.outs[i].lin /\ n.outs[i].u # <<"W", n.outs[i].w>> THEN "a copyable output is not named by its wire"
      ELSE IF \E i \in 1..Len(n.outs) : n.outs[i].lin /\ i \notin fresh /\ n.outs[i].u # n.ins[Source(n, i)].u THEN "an output does not continue its resource"
      ELSE IF \E i \in fresh : n.outs[i].u[2] \in ToSet(name) THEN "a new value takes over a resource that exists already"
      ELSE IF \E i, j \in fresh : i < j /\ n.outs[i].u[2] >= n.outs[j].u[2] THEN "new resources are not numbered in order"
      ELSE ""
PosReason(n) ==
   IF n.pos < 0 THEN "no position"
   ELSE IF \E i \in 1..Len(n.ins) : n.ins[i].from # 0 /\ N[n.ins[i].from].pos > n.pos THEN "positions fall along a value"
   ELSE IF \E i \in 1..Len(n.ins) : n.ins[i].from # 0 /\ n.ins[i].lin /\ N[n.ins[i].from].pos >= n.pos THEN "positions do not rise along a resource"
   ELSE ""
Reason(n) == IF ~n.df THEN "" ELSE IF InReason(n) # "" THEN InReason(n) ELSE IF OutReason(n) # "" THEN OutReason(n) ELSE PosReason(n)
\* ---- the queries
Touch(a, r) == [in |-> {i \in 1..Len(N[a].ins) : N[a].ins[i].u = <<"R", r>>}, out |-> {i \in 1..Len(N[a].outs) : N[a].outs[i].u = <<"R", r>>}]
Step(a, r, out) == IF out THEN {b \in 1..Len(N) : \E i \in 1..Len(N[b].ins) : N[b].ins[i].from = a /\ N[b].ins[i].lin /\ N[b].ins[i].fp \in Touch(a, r).out}
                   ELSE {N[a].ins[i].from : i \in Touch(a, r).in} \ {0}
RECURSIVE Walk(_, _, _)
Walk(a, r, out) == LET s == Step(a, r, out) IN IF s = {} THEN <<a>> ELSE <<a>> \o Walk(CHOOSE b \in s : TRUE, r, out)
First(s) == IF s = {} THEN 0 ELSE Min(s)
PathReason(q) ==
   IF q.path # Walk(q.n, q.r, q.out) THEN "the path of a resource differs"
   ELSE IF q.pi # First(Touch(q.any, q.r).in) \/ q.po # First(Touch(q.any, q.r).out) THEN "the port of a resource differs"
   ELSE IF q.start # (Touch(q.any, q.r).out # {} /\ Touch(q.any, q.r).in = {}) THEN "the start of a resource differs"
   ELSE ""
RECURSIVE Reach(_, _, _)
Reach(todo, acc, data) == IF todo = {} THEN acc
   ELSE LET new == {b \in 1..Len(N) : b \notin acc /\ (IF data THEN \E i \in 1..Len(N[b].ins) : N[b].ins[i].from \in todo ELSE ToSet(N[b].pre) \cap todo # {})}
        IN Reach(new, acc \cup new, data)
ReachReason(q) ==
   LET first == {b \in 1..Len(N) : \E i \in 1..Len(N[b].ins) : \E j \in 1..Len(q.s) : N[b].ins[i].from = q.s[j][1] /\ N[b].ins[i].fp = q.s[j][2]}
   IN IF (Reach(first, first, TRUE) \cap ToSet(q.e) # {}) /\ ~q.got THEN "reachable operations are reported unreachable"
      ELSE IF (Reach(first, first, FALSE) \cap ToSet(q.e) = {}) /\ q.got THEN "unreachable operations are reported reachable"
      ELSE ""
\* ---- intervals
OnPath(r) == {a \in 1..Len(N) : Touch(a, r).in # {} \/ Touch(a, r).out # {}}
PathOf(r) == LET on == OnPath(r)
                 st == {a \in on : Step(a, r, FALSE) = {}}
             IN IF st = {} THEN <<>> ELSE Walk(CHOOSE a \in st : TRUE, r, TRUE)
Idx(p, a) == CHOOSE j \in 1..Len(p) : p[j] = a
Describes(d, p, r, i, j) == /\ d.ns = SubSeq(p, i, j) /\ d.s = p[i] /\ d.e = p[j] /\ d.r = r
                            /\ d.ib = First(Touch(p[i], r).in) /\ d.ob = First(Touch(p[j], r).out)
RECURSIVE Steps(_, _, _, _, _)
Steps(p, r, i, j, st) == IF st = <<>> THEN ""
  ELSE LET s == Head(st)
           at == IF s.n \in ToSet(p) THEN Idx(p, s.n) ELSE 0
           next == IF at = 0 THEN <<"err", i, j>> ELSE IF at >= i /\ at <= j THEN <<"in", i, j>> ELSE IF at = i - 1 THEN <<"before", at, j>> ELSE IF at = j + 1 THEN <<"after", i, at>> ELSE <<"err", i, j>>
       IN IF next[1] = "err" /\ s.d \notin {"gap", "off"} THEN "an interval takes in an operation it does not touch (" \o s.d \o ")"
          ELSE IF next[1] # "err" /\ s.d # next[1] THEN "extending an interval: " \o s.d \o " instead of " \o next[1]
          ELSE IF ~Describes(s.i, p, r, next[2], next[3]) THEN "the extended interval differs"
          ELSE Steps(p, r, next[2], next[3], Tail(st))
IvalReason(q) ==
  LET p == PathOf(q.r)
      on == q.a \in ToSet(p) /\ q.b \in ToSet(p)
  IN IF p = <<>> THEN "a resource without path"
     ELSE IF on /\ Idx(p, q.a) <= Idx(p, q.b)
     THEN IF "err" \in DOMAIN q.first THEN "an interval is refused: " \o q.first.err
          ELSE IF ~Describes(q.first, p, q.r, Idx(p, q.a), Idx(p, q.b)) THEN "an interval differs"
          ELSE Steps(p, q.r, Idx(p, q.a), Idx(p, q.b), q.steps)
     ELSE IF "err" \notin DOMAIN q.first THEN "an interval is accepted between operations that are not on one path in this order"
     ELSE IF q.first.err # (IF on THEN "order" ELSE q.first.err) \/ q.first.err \notin {"off", "order"} THEN "an interval is refused for the wrong reason: " \o q.first.err
     ELSE ""
Ivals == IF "ivals" \in DOMAIN Case THEN Case.ivals ELSE <<>>
Queries == [j \in 1..Len(Ivals) |-> IvalReason(Ivals[j])] \o [j \in 1..Len(Case.paths) |-> PathReason(Case.paths[j])] \o [j \in 1..Len(Case.reach) |-> ReachReason(Case.reach[j])]
EndReason == LET bad == SelectSeq(Queries, LAMBDA x : x # "")
             IN IF Case.all # SetToSortSeq(ToSet(name), LAMBDA x, y : x < y) THEN "the resources listed differ"
                ELSE IF bad # <<>> THEN bad[1] ELSE ""
\* ---- transitions
Enter == /\ verdict = "" /\ ~Bad /\ name = <<>> /\ k = 1
         /\ IF EntryReason # "" THEN verdict' = "rejected" /\ Say("rejected", EntryReason) /\ UNCHANGED <<c, k, name, live>>
            ELSE /\ name' = [j \in 1..Len(Entering) |-> EntryU(j)[2]]
                 /\ live' = [x \in {N[Entering[j][1]].ins[Entering[j][2]].w : j \in 1..Len(Entering)} |->
                              CHOOSE j \in 1..Len(Entering) : N[Entering[j][1]].ins[Entering[j][2]].w = x]
                 /\ k' = 2 /\ UNCHANGED <<c, verdict>>
Operate ==
  /\ verdict = "" /\ ~Bad /\ k > 1 /\ k - 1 <= Len(N)
  /\ LET n == N[k - 1]
         why == Reason(n)
         fresh == SelectSeq([i \in 1..Len(n.outs) |-> i], LAMBDA i : n.outs[i].lin /\ Source(n, i) = 0)
         gone == {n.ins[i].w : i \in {i \in 1..Len(n.ins) : n.ins[i].lin}}
         outs == {i \in 1..Len(n.outs) : n.outs[i].lin}
         mine(i) == IF Source(n, i) = 0 THEN Len(name) + (CHOOSE j \in 1..Len(fresh) : fresh[j] = i) ELSE live[n.ins[Source(n, i)].w]
     IN IF why # "" THEN verdict' = "rejected" /\ Say("rejected", "operation " \o ToString(k - 1) \o ": " \o why) /\ UNCHANGED <<c, k, name, live>>
        ELSE /\ name' = name \o [j \in 1..Len(fresh) |-> n.outs[fresh[j]].u[2]]
             /\ live' = [x \in {n.outs[i].w : i \in outs} |-> mine(CHOOSE i \in outs : n.outs[i].w = x)] @@ [x \in (DOMAIN live) \ gone |-> live[x]]
             /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Finish == /\ verdict = "" /\ (Bad \/ (k > 1 /\ k - 1 > Len(N)))
          /\ IF Bad THEN verdict' = "bad" /\ Say("bad", Case.bad)
             ELSE IF EndReason # "" THEN verdict' = "rejected" /\ Say("rejected", EndReason)
             ELSE verdict' = "ok" /\ Say("ok", "")
          /\ UNCHANGED <<c, k, name, live>>
Next == Enter \/ Operate \/ Finish
Spec == Init /\ [][Next]_vars
\* values that are live together never share a resource, in the model and in the recorded scope
Separate == \A x, y \in DOMAIN live : x # y => live[x] # live[y] /\ name[live[x]] # name[live[y]]
Named == \A i, j \in 1..Len(name) : i # j => name[i] # name[j]
=============================================================================
