------------------------------ MODULE ViewTrace ------------------------------
(* What a circuit view reports about a program, against a direct traversal of the program.          *)
(*   nodes : the node tree in some parent-before-child order [p : index of the parent (0 = none),   *)
(*           ext : extension or opaque operation, ign : one of the packing/no-op operations,         *)
(*           tk : gate name or "", qu : acts on qubits only]                                          *)
(*   root  : index of the region that is the circuit                                                  *)
(*   ifc   : types of the region's inputs [t, lin, q]                                                 *)
(*   rep   : what the view reported                                                                   *)
(* The machine visits the nodes one after another and accumulates the counts; at the end the         *)
(* report must equal the state.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, ops, top, cx, qu, sub, verdict
vars == <<c, k, ops, top, cx, qu, sub, verdict>>
Case == Cases[c]
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ verdict = ""
        /\ ops = 0   \* operations in the whole program
        /\ top = <<>> \* operations directly in the region
        /\ cx = 0 /\ qu = 0  \* CX gates and quantum gates directly in the region
        /\ sub = <<0, 0>>  \* (CX, quantum) over the chosen nodes
InSeq(x, s) == \E m \in 1..Len(s) : s[m] = x
Visit ==
  /\ verdict = "" /\ "bad" \notin DOMAIN Case /\ k <= Len(Case.nodes)
  /\ LET n == Case.nodes[k]
         isop == n.ext /\ ~n.ign
         child == n.p = Case.root
         b(x) == IF x THEN 1 ELSE 0
     IN /\ ops' = ops + b(isop)
        /\ top' = IF child /\ isop THEN Append(top, k) ELSE top
        /\ cx' = cx + b(child /\ n.tk = "CX")
        /\ qu' = qu + b(child /\ n.qu)
        /\ sub' = IF InSeq(k, Case.chosen) THEN <<sub[1] + b(n.tk = "CX"), sub[2] + b(n.qu)>> ELSE sub
  /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
\* units of the interface: linear values numbered in order, classical ones named by their wire
RECURSIVE Units(_, _, _)
Units(tys, pos, lin) == IF pos > Len(tys) THEN <<>>
  ELSE IF tys[pos].lin THEN <<<<"L", lin, pos - 1, tys[pos].t>>>> \o Units(tys, pos + 1, lin + 1)
  ELSE <<<<"W", pos - 1, pos - 1, tys[pos].t>>>> \o Units(tys, pos + 1, lin)
SetOf(s) == {s[m] : m \in 1..Len(s)}
Why ==
  LET r == Case.rep  us == Units(Case.ifc, 1, 0)
      qs == SelectSeq(us, LAMBDA u : u[1] = "L" /\ Case.ifc[u[3] + 1].q) IN
  IF r.num # ops THEN "number of operations is " \o ToString(r.num) \o ", traversal gives " \o ToString(ops)
  ELSE IF SetOf(r.top) # SetOf(top) \/ Len(r.top) # Len(top) THEN "operations of the region"
  ELSE IF r.units # us THEN "units " \o ToString(r.units) \o " instead of " \o ToString(us)
  ELSE IF r.lin # SelectSeq(us, LAMBDA u : u[1] = "L") THEN "linear units"
  ELSE IF r.nonlin # SelectSeq(us, LAMBDA u : u[1] = "W") THEN "nonlinear units"
  ELSE IF r.qubits # qs THEN "qubits " \o ToString(r.qubits)
  ELSE IF r.nq # Len(qs) THEN "qubit count " \o ToString(r.nq)
  ELSE IF r.cost # <<cx, qu>> THEN "cost " \o ToString(r.cost) \o " instead of " \o ToString(<<cx, qu>>)
  ELSE IF r.qcost # qu THEN "gate cost " \o ToString(r.qcost)
  ELSE IF r.sub # sub THEN "cost of chosen nodes " \o ToString(r.sub) \o " instead of " \o ToString(sub)
  ELSE IF r.sig # Case.sig THEN "signature " \o ToString(r.sig)
  ELSE IF r.name # Case.name THEN "name " \o r.name
  ELSE IF \E m \in 1..Len(r.owned) : r.owned[m] # Case.sig THEN "signature of the owned or extracted circuit"
  ELSE IF r.snodes # -1 /\ r.snodes # Cardinality({m \in 1..Len(Case.nodes) : Case.nodes[m].p = Case.root /\ ~Case.nodes[m].io}) THEN "nodes of the whole-region sub-circuit"
  ELSE ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Finish ==
  /\ verdict = "" /\ ("bad" \in DOMAIN Case \/ k > Len(Case.nodes))
  /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad)
     ELSE IF Why # "" THEN verdict' = "rejected" /\ Say("rejected", Why)
     ELSE verdict' = "ok" /\ Say("ok", "")
  /\ UNCHANGED <<c, k, ops, top, cx, qu, sub>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
