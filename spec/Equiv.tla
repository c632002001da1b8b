-------------------------------- MODULE Equiv --------------------------------
(* Conformance of program transformations: every case holds a program before (side 1) and one or   *)
(* more programs after a transformation by the real code.  All branches of all sides are executed  *)
(* by HugrMachine; the per-record channel functionals of each side must equal those of side 1.     *)
EXTENDS HugrMachine, Json, IOUtils

Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
Limit == Data.limit

VARIABLES c,      \* case number
          x,      \* input assignment number
          s,      \* side being executed
          todo,   \* branches still running
          sig,    \* function: record key -> channel functionals, for side s so far
          ref,    \* the finished function of side 1
          steps,
          verdict \* "" while running

vars == <<c, x, s, todo, sig, ref, steps, verdict>>

Case == Cases[c]
Side == Case.sides[s]
\* A side that the real code failed to produce (it crashed, or the program is malformed) carries the reason in "bad".
IsBad(cc, ss) == "bad" \in DOMAIN Cases[cc].sides[ss]
Start(cc, xx, ss) == StartBranch(Cases[cc].sides[ss].g, Cases[cc].sides[ss].main, Cases[cc].inputs[xx])
StartSeq(cc, xx, ss) == IF IsBad(cc, ss) THEN <<>> ELSE <<Start(cc, xx, ss)>>
\* a transformed program gets five times the steps of the original
MaxSteps == IF s = 1 THEN Limit ELSE 5 * Limit
NoSig == [k \in {} |-> <<0, 0, 0>>]

Init == /\ c \in 1..Len(Cases)
        /\ x \in 1..Len(Cases[c].inputs)
        /\ s = 1 /\ steps = 0 /\ sig = NoSig /\ ref = NoSig /\ verdict = ""
        /\ todo = StartSeq(c, x, 1)

\* Results whose relative order the program leaves open are compared as bags; a panic then hides which of the
\* unordered results came first.
Bag(seq) == [e \in {seq[k] : k \in 1..Len(seq)} |-> Cardinality({k \in 1..Len(seq) : seq[k] = e})]
Norm(key) ==
  IF Case.mode = "seq" THEN key
  ELSE IF Case.mode = "seqnp" THEN (IF key[1] \in {"panic", "exit"} THEN <<key[1], "", key[3]>> ELSE key)   \* the reason is not compared
  ELSE IF key[1] = "ret" THEN <<"ret", key[2], Bag(key[3])>>
  ELSE IF key[1] \in {"panic", "exit"} THEN <<key[1], IF Case.mode \in {"bagnp", "bar"} THEN "" ELSE key[2]>>
  ELSE key
Add3(a, b) == [k \in 1..3 |-> (a[k] + b[k]) % P]
\* Mode "bar": the barriers of the source (side 1) or the runtime barriers of the lowered program are part of what is seen.
OfKind(b, kind) == SelectSeq(b.bar, LAMBDA r : r[1] = kind)
Bars(b) == LET q == OfKind(b, IF s = 1 THEN "src" ELSE "run") IN Bag([k \in 1..Len(q) |-> q[k][2]])
WithBars(k, b) == IF Case.mode = "bar" THEN Append(k, Bars(b)) ELSE k
AddSig(f, o, b) == LET k == WithBars(Norm(o.key), b) IN
  IF k \in DOMAIN f THEN [f EXCEPT ![k] = Add3(@, o.c)] ELSE (k :> o.c) @@ f

Running == verdict = ""
StepBranch ==
  /\ Running /\ todo # <<>> /\ steps < MaxSteps
  /\ LET b == todo[Len(todo)]
         rest == SubSeq(todo, 1, Len(todo) - 1)
         kinds == Case.kinds
     IN IF b.fin # <<>>
        THEN /\ todo' = rest
             /\ sig' = AddSig(sig, Observe(b, kinds), b)
        ELSE /\ todo' = rest \o Step(b, Side.g)
             /\ UNCHANGED sig
  /\ steps' = steps + 1
  /\ UNCHANGED <<c, x, s, ref, verdict>>

\* operations that must not be left in a side: "ext.op", or "ext." for every operation of an extension
Matches(name, p) == LET n == Len(p) IN IF SubSeq(p, n, n) = "." THEN Len(name) >= n /\ SubSeq(name, 1, n) = p ELSE name = p
OpsOf(cc, ss) == UNION {{Cases[cc].sides[ss].g[r].b[k].op : k \in 1..Len(Cases[cc].sides[ss].g[r].b)} : r \in 1..Len(Cases[cc].sides[ss].g)}
Left(cc, ss) == IF IsBad(cc, ss) \/ "forbid" \notin DOMAIN Cases[cc].sides[ss] THEN {}
                ELSE LET f == Cases[cc].sides[ss].forbid IN {o \in OpsOf(cc, ss) : \E k \in 1..Len(f) : Matches(o, f[k])}

Nz(f) == LET D == {k \in DOMAIN f : f[k] # <<0, 0, 0>>} IN [k \in D |-> f[k]]
Kinds(f) == {k[1] : k \in DOMAIN f}
UnsupOps(f) == {k[2] : k \in {kk \in DOMAIN f : kk[1] = "unsup"}}
Say(v, detail) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> x, side |-> s, v |-> v, steps |-> steps, detail |-> detail]))

Diff(f, g) == [onlyBefore |-> SetToSeq({ToString(k) : k \in (DOMAIN f) \ (DOMAIN g)}),
               onlyAfter |-> SetToSeq({ToString(k) : k \in (DOMAIN g) \ (DOMAIN f)}),
               differ |-> SetToSeq({ToString(k) : k \in {kk \in (DOMAIN f) \cap (DOMAIN g) : f[kk] # g[kk]}})]

EndSide ==
  /\ Running /\ (todo = <<>> \/ steps >= MaxSteps)
  /\ LET f == Nz(sig) IN
     IF IsBad(c, s) THEN
        /\ verdict' = "bad" /\ Say("bad", Side.bad) /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>
     ELSE IF x = 1 /\ Left(c, s) # {} THEN
        /\ verdict' = "forbidden" /\ Say("forbidden", ToString(Left(c, s))) /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>
     ELSE IF steps >= MaxSteps THEN
        /\ verdict' = "limit" /\ Say("limit", "") /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>
     ELSE IF "unsup" \in Kinds(f) THEN
        /\ verdict' = "unsup" /\ Say("unsup", ToString(UnsupOps(f))) /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>
     ELSE IF "fault" \in Kinds(f) THEN
        /\ verdict' = "fault" /\ Say("fault", Diff(NoSig, f)) /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>
     ELSE IF s > 1 /\ f # ref THEN
        /\ verdict' = "differ" /\ Say("differ", Diff(ref, f)) /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>
     ELSE IF s < Len(Case.sides) THEN
        /\ s' = s + 1 /\ todo' = StartSeq(c, x, s + 1) /\ sig' = NoSig
        /\ ref' = (IF s = 1 THEN f ELSE ref) /\ steps' = 0 /\ UNCHANGED <<c, x, verdict>>
     ELSE /\ verdict' = "ok" /\ Say("ok", Cardinality(DOMAIN f)) /\ UNCHANGED <<c, x, s, todo, sig, ref, steps>>

Next == StepBranch \/ EndSide
Spec == Init /\ [][Next]_vars

\* The property: no side is ever found to differ from side 1 or to break linearity.
Preserved == verdict \notin {"differ", "fault", "bad", "forbidden"}
=============================================================================
