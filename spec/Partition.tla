------------------------------ MODULE Partition ------------------------------
(* Splitting into chunks: a machine that takes the operations of a circuit away chunk by chunk.       *)
(*   ops : [name, cost] of every operation of the circuit; chunks : the same for every chunk, in      *)
(*   order; max : the bound on the cost of a chunk; valid : the chunk is a valid circuit              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, left, verdict
vars == <<c, k, left, verdict>>
Case == Cases[c]
BagOf(s) == [e \in {s[m] : m \in 1..Len(s)} |-> Cardinality({m \in 1..Len(s) : s[m] = e})]
IsBad == "bad" \in DOMAIN Case
Init == c \in 1..Len(Cases) /\ k = 1 /\ verdict = "" /\ left = (IF "bad" \in DOMAIN Cases[c] THEN <<>> ELSE BagOf(Cases[c].ops))
Cost(s) == FoldLeft(LAMBDA a, e : a + e[2], 0, s)
Costly(s) == SelectSeq(s, LAMBDA e : e[2] > 0)
Why == LET s == Case.chunks[k] b == BagOf(s) IN
  IF ~Case.valid[k] THEN "chunk is not a valid circuit"
  ELSE IF s = <<>> THEN "empty chunk"
  ELSE IF \E e \in DOMAIN b : e \notin DOMAIN left \/ left[e] < b[e] THEN "operation in two chunks"
  ELSE IF Cost(s) > Case.max /\ Len(Costly(s)) > 1 THEN "chunk of cost " \o ToString(Cost(s)) \o " exceeds " \o ToString(Case.max)
  ELSE ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Take == /\ verdict = "" /\ ~IsBad /\ k <= Len(Case.chunks) /\ Why = ""
        /\ LET b == BagOf(Case.chunks[k]) IN left' = [e \in DOMAIN left |-> left[e] - (IF e \in DOMAIN b THEN b[e] ELSE 0)]
        /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Reject == /\ verdict = "" /\ ~IsBad /\ k <= Len(Case.chunks) /\ Why # "" /\ verdict' = "rejected" /\ Say("rejected", Why) /\ UNCHANGED <<c, k, left>>
Finish == /\ verdict = "" /\ (IsBad \/ k > Len(Case.chunks))
  /\ IF IsBad THEN verdict' = "bad" /\ Say("bad", Case.bad)
     ELSE IF \E e \in DOMAIN left : left[e] > 0 THEN verdict' = "rejected" /\ Say("rejected", "operations in no chunk: " \o ToString({e \in DOMAIN left : left[e] > 0}))
     ELSE IF Case.len # Len(Case.chunks) THEN verdict' = "rejected" /\ Say("rejected", "number of chunks")
     ELSE verdict' = "ok" /\ Say("ok", "")
  /\ UNCHANGED <<c, k, left>>
Next == Take \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
