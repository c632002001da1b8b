----------------------------- MODULE CodecTrace -----------------------------
(* Names and written forms.  The machine knows the definitions that are shipped as data; it keeps the written form of every   *)
(* operation, type and constant it has seen.  An operation is an instance of a shipped definition: its signature is that of   *)
(* the definition with the arguments put in place.  Two different things are never written the same way, a thing is always    *)
(* written the same way, and reading gives the thing that was written.                                                         *)
(*  Data.defs   : <<[name, params, sig : tree or none]>> shipped;  terms are trees [k, i, a]: k the constructor, "var" / "row"  *)
(*                the i-th parameter (a row is spliced into the list around it)                                                *)
(*  case.events : "def" [name, got, want], "op" [key, name, args, sig, doc, back : <<[how, err, key, name, args, sig]>>],       *)
(*                "val" [key, doc, back]                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, docs, verdict
vars == <<c, k, docs, verdict>>
Case == Cases[c]
E == Case.events[k]
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> Len(Case.events), detail |-> d]))
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ verdict = "" /\ docs = {}
\* ------------------------------------------------------------------------------------------------ instances of a definition
RECURSIVE Put(_, _), PutAll(_, _)
Put(t, args) == IF t.k = "var" THEN args[t.i + 1] ELSE [k |-> t.k, i |-> t.i, a |-> PutAll(t.a, args)]
PutAll(s, args) == IF s = <<>> THEN <<>>
  ELSE (IF Head(s).k = "row" THEN args[Head(s).i + 1].a ELSE <<Put(Head(s), args)>>) \o PutAll(Tail(s), args)
DefsOf(n) == {i \in 1..Len(Data.defs) : Data.defs[i].name = n}
D == Data.defs[CHOOSE i \in DefsOf(E.name) : TRUE]
\* ------------------------------------------------------------------------------------------------ transitions
Reject(d) == verdict' = "rejected" /\ Say("rejected", "event " \o ToString(k) \o ": " \o d) /\ UNCHANGED <<c, k, docs>>
Go == k' = k + 1 /\ UNCHANGED <<c, verdict>>
Clash == {d \in docs : (d[1] = E.key) # (d[2] = E.doc)}
BadBack(b) == IF b.err # "" THEN b.how \o " fails: " \o b.err
  ELSE IF b.key # E.key THEN b.how \o " gives " \o b.key \o " for " \o E.key
  ELSE IF b.doc # E.doc THEN b.how \o ": " \o E.key \o " is then written another way"
  ELSE IF b.sig # E.sig THEN b.how \o ": " \o E.key \o " has another signature"
  ELSE ""
Written == IF Clash # {} THEN Reject(E.key \o " and " \o (CHOOSE d \in Clash : TRUE)[1] \o " are written the same way, or one of them in two ways")
  ELSE IF \E i \in 1..Len(E.back) : BadBack(E.back[i]) # "" THEN Reject(BadBack(E.back[CHOOSE i \in 1..Len(E.back) : BadBack(E.back[i]) # ""]))
  ELSE docs' = docs \cup {<<E.key, E.doc>>} /\ Go
Op == E.act = "op" /\ (
  IF Cardinality(DefsOf(E.name)) # 1 THEN Reject(E.name \o " is defined " \o ToString(Cardinality(DefsOf(E.name))) \o " times in the data")
  ELSE IF Len(E.args) # D.params THEN Reject(E.name \o " has another number of parameters")
  ELSE IF D.sig.k # "none" /\ Put(D.sig, E.args) # E.sig THEN Reject(E.key \o ": the signature is not that of the definition in the data")
  ELSE Written)
Val == E.act = "val" /\ Written
Def == E.act = "def" /\ (IF E.got # E.want THEN Reject(E.name \o ": the definition in the code (" \o E.got \o ") is not the one in the data (" \o E.want \o ")") ELSE Go /\ UNCHANGED docs)
Finish == verdict = "" /\ k > Len(Case.events) /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, k, docs>>
Next == (verdict = "" /\ k <= Len(Case.events) /\ (Op \/ Val \/ Def)) \/ Finish
Spec == Init /\ [][Next]_vars
\* what is written determines what was written, and the other way around
Codec == \A d, e \in docs : (d[1] = e[1]) <=> (d[2] = e[2])
=============================================================================
