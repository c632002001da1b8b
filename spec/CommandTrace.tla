----------------------------- MODULE CommandTrace -----------------------------
(* Conformance of command iteration.  A case holds the graph of one region and the sequence of     *)
(* commands the real iterator produced.  The state is the set of operations visited so far and      *)
(* the unit each live linear wire carries; a command is accepted only if it is a transition of      *)
(* this machine.                                                                                     *)
(*   nodes : [id, p : ids that must come first, i : input wires [w, lin], o : output wires]          *)
(*   start : <<wire, unit>> for the linear wires entering the region                                 *)
(*   cmds  : [n, i : units named for the inputs, o : units named for the outputs, hint]              *)
(* A unit is <<"L", number>> or <<"W", wire>>; unconnected classical inputs are named by nothing.    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, done, unit, verdict
vars == <<c, k, done, unit, verdict>>
Case == Cases[c]
Node(id) == CHOOSE n \in {Case.nodes[m] : m \in 1..Len(Case.nodes)} : n.id = id
Ids == {Case.nodes[m].id : m \in 1..Len(Case.nodes)}
\* a constant that nothing uses may be left out
Needed == {Case.nodes[m].id : m \in {j \in 1..Len(Case.nodes) : ~Case.nodes[j].dead}}
Lins(ports) == SelectSeq(ports, LAMBDA p : p.lin)
NoMap == [x \in {} |-> 0]
RECURSIVE MapOf(_)
MapOf(ps) == IF ps = <<>> THEN NoMap ELSE (Head(ps)[1] :> Head(ps)[2]) @@ MapOf(Tail(ps))
Live == {unit[w] : w \in DOMAIN unit}

Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ done = {} /\ verdict = ""
        /\ unit = MapOf(Case.start)

\* expected names of the inputs
InName(p) == IF p.lin THEN <<"L", unit[p.w]>> ELSE <<"W", p.w>>
Expect(ports) == LET cs == SelectSeq(ports, LAMBDA p : p.w # 0) IN [m \in 1..Len(cs) |-> InName(cs[m])]
Reason(cmd) ==
  IF cmd.n \notin Ids THEN "not an operation of the region"
  ELSE IF cmd.n \in done THEN "yielded twice"
  ELSE LET nd == Node(cmd.n) IN
   IF \E m \in 1..Len(nd.p) : nd.p[m] \in Ids /\ nd.p[m] \notin done THEN "yielded before an operation it depends on"
   ELSE IF \E m \in 1..Len(nd.i) : nd.i[m].lin /\ nd.i[m].w \notin DOMAIN unit THEN "uses a linear value twice"
   ELSE IF cmd.i # Expect(nd.i) THEN "input units " \o ToString(cmd.i) \o " instead of " \o ToString(Expect(nd.i))
   ELSE IF Len(cmd.o) # Len(nd.o) THEN "wrong number of outputs"
   ELSE LET li == Lins(nd.i)
            lo == Lins(nd.o)
            lou == SelectSeq(cmd.o, LAMBDA u : u[1] = "L")
            kept == {unit[w] : w \in (DOMAIN unit) \ {li[m].w : m \in 1..Len(li)}}
        IN IF \E m \in 1..Len(nd.o) : ~nd.o[m].lin /\ cmd.o[m] # <<"W", nd.o[m].w>> THEN "classical output misnamed"
           ELSE IF \E m \in 1..Len(nd.o) : nd.o[m].lin /\ cmd.o[m][1] # "L" THEN "linear output without unit"
           ELSE IF \E m \in 1..Len(lo) : m <= Len(li) /\ lou[m][2] # unit[li[m].w] THEN "a linear value changes its unit"
           ELSE IF \E m \in 1..Len(lo) : lou[m][2] \in kept \/ (\E j \in 1..Len(lo) : j # m /\ lou[j] = lou[m])
                THEN "two live linear values share a unit"
           ELSE IF cmd.hint < Len(Case.cmds) - k + 1 THEN "announces fewer commands than remain"
           ELSE ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Accept ==
  /\ verdict = "" /\ "bad" \notin DOMAIN Case /\ k <= Len(Case.cmds)
  /\ LET cmd == Case.cmds[k] IN
     /\ Reason(cmd) = ""
     /\ LET nd == Node(cmd.n)
            li == Lins(nd.i)
            gone == {li[m].w : m \in 1..Len(li)}
            lo == {m \in 1..Len(nd.o) : nd.o[m].lin}
            new == [w \in {nd.o[m].w : m \in lo} |-> LET m == CHOOSE m \in lo : nd.o[m].w = w IN cmd.o[m][2]]
        IN unit' = new @@ [w \in (DOMAIN unit) \ gone |-> unit[w]]
     /\ done' = done \cup {cmd.n}
  /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Reject ==
  /\ verdict = "" /\ "bad" \notin DOMAIN Case /\ k <= Len(Case.cmds) /\ Reason(Case.cmds[k]) # ""
  /\ verdict' = "rejected" /\ Say("rejected", Reason(Case.cmds[k])) /\ UNCHANGED <<c, k, done, unit>>
Finish ==
  /\ verdict = "" /\ ("bad" \in DOMAIN Case \/ k > Len(Case.cmds))
  /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad)
     ELSE IF Needed \ done # {} THEN verdict' = "rejected" /\ Say("rejected", "operations never yielded: " \o ToString(Needed \ done))
     ELSE verdict' = "ok" /\ Say("ok", "")
  /\ UNCHANGED <<c, k, done, unit>>
Next == Accept \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
\* two live linear values never share a unit
Separate == \A w1, w2 \in DOMAIN unit : w1 # w2 => unit[w1] # unit[w2]
=============================================================================
