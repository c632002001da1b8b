------------------------------ MODULE OrderChain ------------------------------
(* The scheduler of forced ordering.  A region holds nodes 1..N (0 is its input, N+1 its output), data edges and order edges.
   The machine schedules one ready node at a time; forced ordering must leave exactly one ready node at every step (a total
   chain, consistent with data flow), and a node may only follow one of a later class if it directly depends on it: freeing,
   then other quantum operations, then allocation, then the rest, reading of deferred results last. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES).cases
VARIABLES c, done, last, verdict
vars == <<c, done, last, verdict>>
R == Cases[c].r
N == Len(R.ops)
Set(s) == {s[k] : k \in 1..Len(s)}
Data == Set(R.data)
Orig == Set(R.orig)
Edges == Data \cup Set(R.order)
Quantum(o) == \/ (Len(o) > 13 /\ SubSeq(o, 1, 13) = "tket.quantum." /\ o # "tket.quantum.symbolic_angle")
              \/ (Len(o) > 13 /\ SubSeq(o, 1, 13) = "tket.qsystem." /\ SubSeq(o, 1, 14) \notin {"tket.qsystem.r", "tket.qsystem.u"})
Class(o) == CASE o \in {"tket.quantum.QFree", "tket.qsystem.QFree"} -> 0
              [] o \in {"tket.quantum.QAlloc", "tket.quantum.TryQAlloc", "tket.qsystem.TryQAlloc"} -> 2
              [] o = "tket.futures.Read" -> 4
              [] Quantum(o) -> 1
              [] OTHER -> 3
Ready == {n \in (1..(N + 1)) \ done : \A e \in Edges : e[2] = n => e[1] \in done}
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, x |-> 1, side |-> 2, v |-> v, steps |-> Cardinality(done), detail |-> d]))
End(v, d) == verdict' = v /\ Say(v, d) /\ UNCHANGED <<c, done, last>>
Init == c \in 1..Len(Cases) /\ done = {0} /\ last = 0 /\ verdict = ""
Next ==
  /\ verdict = ""
  /\ IF N + 1 \in done THEN End("ok", N)
     ELSE IF Ready = {} THEN End("cycle", ToString(done))
     ELSE IF Cardinality(Ready) > 1 THEN End("unordered", ToString({<<n, IF n <= N THEN R.ops[n] ELSE "output">> : n \in Ready}))
     ELSE LET n == CHOOSE n \in Ready : TRUE IN
          IF n = N + 1 /\ Cardinality(done) # N + 1 THEN End("unordered", "output before the last operation")
          ELSE IF /\ last \in 1..N /\ n \in 1..N /\ Class(R.ops[last]) > Class(R.ops[n])
                  /\ <<last, n>> \notin Data \cup Orig
               THEN End("late", R.ops[n] \o " follows " \o R.ops[last] \o " without depending on it")
          ELSE done' = done \cup {n} /\ last' = n /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Next]_vars
TotalAndEager == verdict \in {"", "ok"}
=============================================================================
