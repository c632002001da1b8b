----------------------------- MODULE StoreTrace -----------------------------
(* Storage.  The machine keeps the content of handles (programs in memory), of files (packages: lists of programs) and, for  *)
(* rule sets, everything a rule set has answered so far.  Saving copies a handle's content to a file, loading copies it back  *)
(* unchanged, and loading a function by its name moves the entrypoint to the first function of that name, in the first        *)
(* program of the package that has one.  Recorded histories of the real code have to be behaviours of this machine.            *)
(*  content of a program: [entry, nodes : <<<<operation, parent, metadata>>>>, edges : <<<<from, port, to, port>>>>,            *)
(*                         funcs : <<<<name, node, plain>>>>, sig]                                                              *)
(*  events : <<[act, h, f, hs, name, got, err, many]>>                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, mem, file, said, verdict
vars == <<c, k, mem, file, said, verdict>>
Case == Cases[c]
E == Case.events[k]
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> Len(Case.events), detail |-> d]))
None == <<>>
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ verdict = ""
        /\ mem = [h \in 1..Case.handles |-> None] /\ file = [f \in 1..Case.files |-> None] /\ said = {}
Same(a, b) ==
  IF a.entry # b.entry THEN "another entrypoint: " \o ToString(b.entry) \o ", not " \o ToString(a.entry)
  ELSE IF Len(a.nodes) # Len(b.nodes) THEN "the number of operations differs"
  ELSE IF \E i \in 1..Len(a.nodes) : a.nodes[i][1] # b.nodes[i][1] THEN "operation " \o ToString(CHOOSE i \in 1..Len(a.nodes) : a.nodes[i][1] # b.nodes[i][1]) \o " differs"
  ELSE IF \E i \in 1..Len(a.nodes) : a.nodes[i][2] # b.nodes[i][2] THEN "operation " \o ToString(CHOOSE i \in 1..Len(a.nodes) : a.nodes[i][2] # b.nodes[i][2]) \o " is in another region"
  ELSE IF \E i \in 1..Len(a.nodes) : a.nodes[i][3] # b.nodes[i][3] THEN "the metadata of operation " \o ToString(CHOOSE i \in 1..Len(a.nodes) : a.nodes[i][3] # b.nodes[i][3]) \o " differs"
  ELSE IF a.edges # b.edges THEN "the edges differ: " \o ToString(CHOOSE e \in (ToSet(a.edges) \ ToSet(b.edges)) \cup (ToSet(b.edges) \ ToSet(a.edges)) : TRUE)
  ELSE IF a.funcs # b.funcs THEN "the functions differ"
  ELSE IF a.sig # b.sig THEN "the signature differs"
  ELSE ""
Reject(d) == verdict' = "rejected" /\ Say("rejected", "event " \o ToString(k) \o ": " \o d) /\ UNCHANGED <<c, k, mem, file, said>>
Go == k' = k + 1 /\ UNCHANGED <<c, verdict>>
\* ------------------------------------------------------------------------------------------------ what a load has to give
\* a file with one program gives the program; others are refused
Loaded == IF Len(file[E.f]) = 1 THEN [ok |-> TRUE, content |-> file[E.f][1]] ELSE [ok |-> FALSE]
Named(p) == {i \in 1..Len(p.funcs) : p.funcs[i][1] = E.name}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Picked == LET S == {i \in 1..Len(file[E.f]) : Named(file[E.f][i]) # {}} IN
  IF S = {} THEN [ok |-> FALSE]
  ELSE LET p == file[E.f][First(S)]
           fn == p.funcs[First(Named(p))] IN
       IF fn[3] THEN [ok |-> TRUE, content |-> [p EXCEPT !.entry = fn[2], !.sig = fn[4]]] ELSE [ok |-> FALSE]
\* ------------------------------------------------------------------------------------------------ transitions
New == E.act = "new" /\ mem' = [mem EXCEPT ![E.h] = E.got] /\ Go /\ UNCHANGED <<file, said>>
Save == E.act = "save" /\ (IF E.err # "" THEN Reject("saving fails: " \o E.err)
        ELSE file' = [file EXCEPT ![E.f] = [i \in 1..Len(E.hs) |-> mem[E.hs[i]]]] /\ Go /\ UNCHANGED <<mem, said>>)
Take(want, what) ==
  IF want.ok THEN IF E.err # "" THEN Reject(what \o " fails: " \o E.err)
                  ELSE LET d == Same(want.content, E.got) IN
                       IF d # "" THEN Reject(what \o " (" \o E.fmt \o "): " \o d)
                       ELSE mem' = [mem EXCEPT ![E.h] = want.content] /\ Go /\ UNCHANGED <<file, said>>
  ELSE IF E.err = "" THEN Reject(what \o " succeeds where there is nothing to load") ELSE Go /\ UNCHANGED <<mem, file, said>>
Load == E.act = "load" /\ Take(Loaded, "loading")
Pick == E.act = "pick" /\ Take(Picked, "loading function " \o E.name)
\* ------------------------------------------------------------------------------------------------ rule sets: content is a number
SaveR == E.act = "saver" /\ (IF E.err # "" THEN Reject("saving the rules fails: " \o E.err) ELSE file' = [file EXCEPT ![E.f] = mem[E.h]] /\ Go /\ UNCHANGED <<mem, said>>)
LoadR == E.act = "loadr" /\ (IF E.err # "" THEN Reject("loading the rules fails: " \o E.err) ELSE mem' = [mem EXCEPT ![E.h] = file[E.f]] /\ Go /\ UNCHANGED <<file, said>>)
Ask == E.act = "ask" /\ (IF E.err # "" THEN Reject("proposing fails: " \o E.err)
       ELSE LET old == {s \in said : s[1] = mem[E.h] /\ s[2] = E.name} IN
            IF \E s \in old : s[3] # E.got THEN Reject("the reloaded rules propose something else on circuit " \o E.name)
            ELSE said' = said \cup {<<mem[E.h], E.name, E.got>>} /\ Go /\ UNCHANGED <<mem, file>>)
Finish == verdict = "" /\ k > Len(Case.events) /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, k, mem, file, said>>
Next == (verdict = "" /\ k <= Len(Case.events) /\ (New \/ Save \/ Load \/ Pick \/ SaveR \/ LoadR \/ Ask)) \/ Finish
Spec == Init /\ [][Next]_vars
\* equal content answers equally
Function == \A s, t \in said : s[1] = t[1] /\ s[2] = t[2] => s[3] = t[3]
=============================================================================
