------------------------------ MODULE OptTrace ------------------------------
(* Superoptimisation as a search over the circuits that the rewrites generate: circuits wait, one of the cheapest is        *)
(* expanded, the cheapest one seen is kept. A run of the real optimiser is compared with the state this search ends in.      *)
(*  case: ops table [kind, name], nodes circuits reached [ops, next] (1 is the input), complete: these are all of them,       *)
(*        cost  the cost function, runs of the optimiser: ops of the result, at: its circuit (0: none of these),              *)
(*        inside: the result has to be one of the circuits, full: the search went through all of them                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, cost, waiting, seen, best, verdict
vars == <<c, cost, waiting, seen, best, verdict>>
Case == Cases[c]
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> Cardinality(seen), detail |-> d]))
---------------------------------------------------------------------------
Ignored == {"prelude.Noop", "prelude.MakeTuple", "prelude.UnpackTuple"}
Unitary == {"H", "CX", "T", "S", "V", "X", "Y", "Z", "Tdg", "Sdg", "Vdg", "Rz", "Rx", "Toffoli", "Ry", "CZ", "CY", "CRz"}
B(x) == IF x THEN 1 ELSE 0
Prefix(s) == Len(s) > 13 /\ SubSeq(s, 1, 13) = "tket.quantum."
Price(f, o) ==
  IF o.kind # "op" THEN IF f \in {"cx", "rz"} THEN <<0, 0>> ELSE <<0>>
  ELSE LET g == IF Prefix(o.name) THEN SubSeq(o.name, 14, Len(o.name)) ELSE "" IN
       CASE f = "cx" -> <<B(g = "CX"), B(g \in Unitary)>> [] f = "rz" -> <<B(g = "Rz"), B(g \in Unitary)>>
         [] f = "gcx" -> <<B(g = "CX")>> [] f = "num" -> <<B(o.name \notin Ignored)>>
         [] f = "w" -> <<CASE g = "CX" -> 5 [] g = "H" -> 2 [] g \in {"T", "Tdg"} -> 3 [] g \in {"X", ""} -> 0 [] OTHER -> 1>>
Prices(x) == [o \in DOMAIN x.ops |-> Price(x.cost, x.ops[o])]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Zero(x) == IF x.cost \in {"cx", "rz"} THEN <<0, 0>> ELSE <<0>>
Sum(x, s) == LET p == Prices(x) IN FoldSeq(LAMBDA o, acc : Add(acc, p[o]), Zero(x), s)
Less(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
---------------------------------------------------------------------------
Wrong(x) == "nodes" \notin DOMAIN x \/ "bad" \in DOMAIN x
Init == /\ c \in 1..Len(Cases) /\ verdict = "" /\ waiting = {1} /\ seen = {1} /\ best = 1
        /\ cost = IF Wrong(Case) THEN <<>> ELSE LET p == Prices(Case) IN [v \in DOMAIN Case.nodes |-> FoldSeq(LAMBDA o, acc : Add(acc, p[o]), Zero(Case), Case.nodes[v].ops)]
Broken == /\ verdict = "" /\ Wrong(Case) /\ verdict' = "bad" /\ Say("bad", Case.bad) /\ UNCHANGED <<c, cost, waiting, seen, best>>
Expand ==
  /\ verdict = "" /\ ~Wrong(Case) /\ waiting # {}
  /\ LET v == CHOOSE v \in waiting : \A w \in waiting : ~Less(cost[w], cost[v])
         new == Range(Case.nodes[v].next) \ seen
     IN /\ seen' = seen \cup new /\ waiting' = (waiting \ {v}) \cup new
        /\ best' = CHOOSE b \in {best} \cup new : \A w \in {best} \cup new : ~Less(cost[w], cost[b])
  /\ UNCHANGED <<c, cost, verdict>>
Judge(r) ==
  LET got == Sum(Case, r.ops) IN
  IF "bad" \in DOMAIN r THEN r.bad
  ELSE IF Less(cost[1], got) THEN "the cost went from " \o ToString(cost[1]) \o " to " \o ToString(got)
  ELSE IF r.inside /\ r.at \notin seen THEN "the result is no circuit the rewrites lead to"
  ELSE IF r.full /\ got # cost[best] THEN "ended with cost " \o ToString(got) \o " although the search reaches " \o ToString(cost[best])
  ELSE IF r.at > 0 /\ got # cost[r.at] THEN "two circuits of different cost count as the same"
  ELSE ""
Finish ==
  /\ verdict = "" /\ ~Wrong(Case) /\ waiting = {}
  /\ LET wrong == {k \in DOMAIN Case.runs : Judge(Case.runs[k]) # ""} IN
     IF wrong = {} THEN verdict' = "ok" /\ Say("ok", "")
     ELSE LET k == Min(wrong) IN verdict' = "rejected" /\ Say("rejected", Case.strat \o ", " \o Case.runs[k].mode \o ": " \o Judge(Case.runs[k]))
  /\ UNCHANGED <<c, cost, waiting, seen, best>>
Next == Broken \/ Expand \/ Finish
Spec == Init /\ [][Next]_vars
NeverWorse == cost # <<>> => ~Less(cost[1], cost[best])
=============================================================================
