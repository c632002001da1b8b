----------------------------- MODULE SquashDone -----------------------------
(* What borrow squashing leaves behind: along a run of borrows and returns of one array by known     *)
(* index, no element that was borrowed and given back is borrowed again.                             *)
(*   ops : [k: "b"|"r", x: index or -1, prev: number of the previous operation on that array, or 0]  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, st, verdict
vars == <<c, k, st, verdict>>
Ops == Cases[c].ops
\* st[m]: function from index to "out" (borrowed in this run) or "back" (borrowed and given back in this run)
None == [i \in {} |-> ""]
Of(f, i) == IF i \in DOMAIN f THEN f[i] ELSE ""
Init == c \in 1..Len(Cases) /\ k = 1 /\ st = <<>> /\ verdict = ""
Op == Ops[k]
Before == IF Op.prev = 0 THEN None ELSE st[Op.prev]
After == IF Op.x < 0 THEN None
         ELSE CASE Op.k = "b" /\ Of(Before, Op.x) = "" -> (Op.x :> "out") @@ Before
                [] Op.k = "b" -> (Op.x :> "") @@ Before
                [] Op.k = "r" /\ Of(Before, Op.x) = "out" -> (Op.x :> "back") @@ Before
                [] OTHER -> (Op.x :> "") @@ Before
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Take == /\ verdict = "" /\ k <= Len(Ops)
        /\ IF Op.k = "b" /\ Op.x >= 0 /\ Of(Before, Op.x) = "back"
           THEN verdict' = "left" /\ Say("left", "element " \o ToString(Op.x) \o " is given back and borrowed again") /\ UNCHANGED <<c, k, st>>
           ELSE k' = k + 1 /\ st' = Append(st, After) /\ UNCHANGED <<c, verdict>>
Finish == verdict = "" /\ k > Len(Ops) /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, k, st>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
