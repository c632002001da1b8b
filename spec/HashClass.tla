------------------------------ MODULE HashClass ------------------------------
(* Circuits up to structure: every operation gets a class, two operations being in the same class iff they are the same    *)
(* operation fed, port by port, from operations of the same classes.  A circuit is the class of its output together with   *)
(* the classes of the operations nothing reads.  The real hash has to separate exactly these classes.                       *)
(*  case: graphs : <<[hash, nodes]>>, nodes in an order that respects edges (inner regions first):                          *)
(*        [op, ins : ports of links <<node, port>> (node 0: outside, named by text), kid : the region inside, end,           *)
(*         sink]; a node with op "region" ends a region: it gathers what belongs to it.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, g, k, tab, cls, fin, verdict
vars == <<c, g, k, tab, cls, fin, verdict>>
Case == Cases[c]
Graph == Case.graphs[g]
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
Bag(s) == [x \in ToSet(s) |-> Count(x, s)]
NoTab == [x \in {} |-> 0]
Init == c \in 1..Len(Cases) /\ g = 1 /\ k = 1 /\ tab = NoTab /\ cls = <<>> /\ fin = <<>> /\ verdict = ""
Link(l) == IF l.n = 0 THEN <<0, l.p, l.t>> ELSE <<cls[l.n], l.p, "">>
Key(n) == <<n.op, IF n.kid = 0 THEN 0 ELSE cls[n.kid], [i \in 1..Len(n.ins) |-> Bag([j \in 1..Len(n.ins[i]) |-> Link(n.ins[i][j])])],
            Bag([j \in 1..Len(n.ends) |-> cls[n.ends[j]]])>>
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> Len(Case.graphs), detail |-> d]))
Classify == /\ verdict = "" /\ g <= Len(Case.graphs) /\ k <= Len(Graph.nodes)
            /\ LET key == Key(Graph.nodes[k])
                   new == key \notin DOMAIN tab
                   id == IF new THEN Cardinality(DOMAIN tab) + 1 ELSE tab[key]
               IN /\ tab' = IF new THEN tab @@ (key :> id) ELSE tab
                  /\ cls' = Append(cls, id)
            /\ k' = k + 1 /\ UNCHANGED <<c, g, fin, verdict>>
NextGraph == /\ verdict = "" /\ g <= Len(Case.graphs) /\ k > Len(Graph.nodes)
             /\ fin' = Append(fin, cls[Len(cls)]) /\ g' = g + 1 /\ k' = 1 /\ cls' = <<>> /\ UNCHANGED <<c, tab, verdict>>
Wrong == {<<i, j>> \in (1..Len(Case.graphs)) \X (1..Len(Case.graphs)) : i < j /\ ((fin[i] = fin[j]) # (Case.graphs[i].hash = Case.graphs[j].hash))}
Compare == /\ verdict = "" /\ g > Len(Case.graphs)
           /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad)
              ELSE IF Wrong = {} THEN verdict' = "ok" /\ Say("ok", "")
              ELSE LET w == CHOOSE w \in Wrong : \A x \in Wrong : w[1] < x[1] \/ (w[1] = x[1] /\ w[2] <= x[2]) IN
                   verdict' = "rejected" /\ Say("rejected", (IF fin[w[1]] = fin[w[2]] THEN "same circuit, different hashes: " ELSE "different circuits, same hash: ")
                                                \o Case.graphs[w[1]].what \o " / " \o Case.graphs[w[2]].what)
           /\ UNCHANGED <<c, g, k, tab, cls, fin>>
Next == Classify \/ NextGraph \/ Compare
Spec == Init /\ [][Next]_vars
\* classes are numbered without gaps and never merged
Injective == \A x, y \in DOMAIN tab : x # y => tab[x] # tab[y]
=============================================================================
