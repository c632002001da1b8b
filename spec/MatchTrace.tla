----------------------------- MODULE MatchTrace -----------------------------
(* Where a pattern occurs in a circuit.  An occurrence is an embedding of the pattern's operations into the circuit's     *)
(* (same operation, same wiring between them, wires entering and leaving at the pattern's inputs and outputs only) whose   *)
(* image is convex.  All embeddings are grown operation by operation; the matcher has to report exactly these.              *)
(*  graph: nodes <<[op, ins : <<[n, p]>> (n = 0: region input p), ord : <<predecessors by order edges>>]>> in an order      *)
(*         respecting edges, outs : <<[n, p]>>                                                                               *)
(*  case: target, pats : <<[graph, nin, lin (all wires linear), count (operations other than tuple and noop), ok (accepted as a pattern), why]>>,                          *)
(*        runs : <<[name, found : <<[pat, ins : <<set of <<n, port>>>>, outs : <<<<n, port>>>>, nodes]>>, pats]>>             *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, p, k, maps, want, may, verdict
vars == <<c, p, k, maps, want, may, verdict>>
Case == Cases[c]
Target == Case.target
T == Target.nodes
Pat == Case.pats[p]
Init == c \in 1..Len(Cases) /\ p = 1 /\ k = 1 /\ maps = {<<>>} /\ want = {} /\ may = {} /\ verdict = ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> Cardinality(want), detail |-> d]))
\* ---- the graph
Preds(t) == {T[t].ins[i].n : i \in 1..Len(T[t].ins)} \cup Range(T[t].ord)
RECURSIVE Below(_, _)
Below(todo, acc) == IF todo = {} THEN acc ELSE LET new == {t \in 1..Len(T) : t \notin acc /\ Preds(t) \cap todo # {}} IN Below(new, acc \cup new)
Convex(img) == LET outside == {t \in 1..Len(T) : t \notin img /\ Preds(t) \cap img # {}} IN Below(outside, outside) \cap img = {}
\* the places outside the image that read output q of t
Leaves(img, t, q) == {<<u, i>> \in (1..Len(T)) \X (1..8) : u \notin img /\ i <= Len(T[u].ins) /\ T[u].ins[i].n = t /\ T[u].ins[i].p = q}
                     \cup {<<0, i>> : i \in {j \in 1..Len(Target.outs) : Target.outs[j].n = t /\ Target.outs[j].p = q}}
\* ---- embeddings
Fits(m, t) == /\ t \notin Range(m) /\ T[t].op = Pat.nodes[k].op /\ Len(T[t].ins) = Len(Pat.nodes[k].ins)
              /\ \A i \in 1..Len(T[t].ins) : LET l == Pat.nodes[k].ins[i] IN l.n # 0 => T[t].ins[i].n = m[l.n] /\ T[t].ins[i].p = l.p
Grow == /\ verdict = "" /\ p <= Len(Case.pats) /\ k <= Len(Pat.nodes)
        /\ maps' = UNION {{Append(m, t) : t \in {t \in 1..Len(T) : Fits(m, t)}} : m \in maps}
        /\ k' = k + 1 /\ UNCHANGED <<c, p, want, may, verdict>>
\* ports of the pattern reading input i
Uses(i) == {<<n, j>> \in (1..Len(Pat.nodes)) \X (1..8) : j <= Len(Pat.nodes[n].ins) /\ Pat.nodes[n].ins[j].n = 0 /\ Pat.nodes[n].ins[j].p = i}
Source(m, u) == T[m[u[1]]].ins[u[2]]
Sources(m, i) == {Source(m, u) : u \in Uses(i)}
OutSet == {<<Pat.outs[j].n, Pat.outs[j].p>> : j \in 1..Len(Pat.outs)}
\* the outputs of the pattern's operations
Outside(m) == {<<n, q>> \in (1..Len(Pat.nodes)) \X (0..7) : q < Pat.nodes[n].nout /\ Leaves(Range(m), m[n], q) # {}}
Occurs(m) == /\ \A i \in 0..Pat.nin - 1 : Cardinality(Sources(m, i)) <= 1
             /\ \A i \in 0..Pat.nin - 1 : \A s \in Sources(m, i) : s.n \notin Range(m)
             /\ Outside(m) \subseteq OutSet
             /\ Convex(Range(m))
\* inputs that happen to come from one and the same value, outputs nobody reads, and operations tied to a constant outside
\* the region (which no HUGR subgraph can contain) are left open
Strict(m) == /\ \A i, j \in 0..Pat.nin - 1 : i # j => Sources(m, i) \cap Sources(m, j) = {}
             /\ OutSet \subseteq Outside(m)
             /\ \A t \in Range(m) : ~T[t].outer
Report(m) == [pat |-> p, ins |-> [i \in 1..Pat.nin |-> {<<m[u[1]], u[2]>> : u \in Uses(i - 1)}],
              outs |-> [j \in 1..Len(Pat.outs) |-> <<m[Pat.outs[j].n], Pat.outs[j].p>>], nodes |-> Range(m)]
Collect == /\ verdict = "" /\ p <= Len(Case.pats) /\ k > Len(Pat.nodes)
           /\ LET occ == IF Pat.ok THEN {m \in maps : Occurs(m)} ELSE {}
              IN may' = may \cup {Report(m) : m \in occ} /\ want' = want \cup {Report(m) : m \in {m \in occ : Strict(m)}}
           /\ p' = p + 1 /\ k' = 1 /\ maps' = {<<>>} /\ UNCHANGED <<c, verdict>>
\* ---- what may be turned down as a pattern: nothing that is connected through linear wires
RECURSIVE Joined(_, _)
Joined(g, s) == LET new == {n \in 1..Len(g.nodes) : n \notin s /\ \E i \in 1..Len(g.nodes[n].ins) : g.nodes[n].ins[i].n \in s}
                           \cup {x \in UNION {{g.nodes[n].ins[i].n : i \in 1..Len(g.nodes[n].ins)} : n \in s} : x # 0 /\ x \notin s}
                IN IF new = {} THEN s ELSE Joined(g, s \cup new)
Connected(g) == Len(g.nodes) > 0 /\ Joined(g, {1}) = 1..Len(g.nodes)
Wireless(g) == \E j \in 1..Len(g.outs) : g.outs[j].n = 0
Reads(g) == {g.nodes[n].ins[i].p : <<n, i>> \in {<<n, i>> \in (1..Len(g.nodes)) \X (1..8) : i <= Len(g.nodes[n].ins) /\ g.nodes[n].ins[i].n = 0}}
Unused(g) == ~(0..g.nin - 1 \subseteq Reads(g))
Refused == {q \in 1..Len(Case.pats) : LET g == Case.pats[q] IN
             \/ g.ok /\ (~Connected(g) \/ Wireless(g) \/ Unused(g))
             \/ ~g.ok /\ g.lin /\ g.count > 0 /\ Connected(g) /\ ~Wireless(g) /\ ~Unused(g)}
Found(r) == {[pat |-> f.pat, ins |-> [i \in 1..Len(f.ins) |-> {<<x[1], x[2]>> : x \in Range(f.ins[i])}], outs |-> [j \in 1..Len(f.outs) |-> <<f.outs[j][1], f.outs[j][2]>>],
              nodes |-> Range(f.nodes)] : f \in Range(r.found)}
For(s, r) == {x \in s : x.pat \in Range(r.pats)}
Wrong == {r \in Range(Case.runs) : ~(For(want, r) \subseteq Found(r)) \/ ~(Found(r) \subseteq For(may, r)) \/ Cardinality(Found(r)) # Len(r.found)}
\* the same answer in every run, also where the answer is left open
Differ == {<<a, b>> \in Range(Case.runs) \X Range(Case.runs) :
             \E q \in Range(a.pats) \cap Range(b.pats) : {x \in Found(a) : x.pat = q} # {x \in Found(b) : x.pat = q}}
Compare == /\ verdict = "" /\ p > Len(Case.pats)
           /\ LET d == IF "bad" \in DOMAIN Case THEN Case.bad
                       ELSE IF Refused # {} THEN LET q == CHOOSE q \in Refused : TRUE IN "pattern " \o ToString(q) \o (IF Case.pats[q].ok THEN " accepted though not connected or with an empty wire" ELSE " refused: " \o Case.pats[q].why)
                       ELSE IF Wrong # {} THEN LET r == CHOOSE r \in Wrong : TRUE
                                                   missed == For(want, r) \ Found(r)
                                                   extra == Found(r) \ For(may, r) IN
                            r.name \o (IF missed # {} THEN ": missed " \o ToString(CHOOSE x \in missed : TRUE) ELSE IF extra # {} THEN ": not an occurrence: " \o ToString(CHOOSE x \in extra : TRUE) ELSE ": reported twice")
                       ELSE IF Differ # {} THEN LET x == CHOOSE x \in Differ : TRUE IN "runs " \o x[1].name \o " and " \o x[2].name \o " differ"
                       ELSE ""
              IN IF d = "" THEN verdict' = "ok" /\ Say("ok", "") ELSE verdict' = "rejected" /\ Say("rejected", d)
           /\ UNCHANGED <<c, p, k, maps, want, may>>
Next == Grow \/ Collect \/ Compare
Spec == Init /\ [][Next]_vars
\* an embedding is a one-to-one map
OneToOne == \A m \in maps : Cardinality(Range(m)) = Len(m)
Sound == want \subseteq may
=============================================================================
