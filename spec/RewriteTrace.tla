---------------------------- MODULE RewriteTrace ----------------------------
(* What the rewriter proposed for a circuit, what applying each proposal did, and what every strategy made of them.          *)
(*  case: ops    table of operations [kind, name]                                                                            *)
(*        nodes  the operations of the circuit [o, inner] (number = position), edges <<n, p, m, q>> between them              *)
(*        rws    proposals: sub (replaced nodes), inval (nodes reported as changed), repl (operations put in their place),     *)
(*               delta, and the circuit after applying it: gone, new, inner, kept <<node, op>>, edges between kept nodes       *)
(*        strats strategies: kind greedy / exh / thr, cost function, before, pre/post per proposal,                           *)
(*               res: gone, new, inner, delta, after                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
VARIABLES c, k, verdict
vars == <<c, k, verdict>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ k = 0 /\ verdict = ""
Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> 1, side |-> 2, v |-> v, steps |-> k, detail |-> d]))
Op(o) == Case.ops[o]
Node(n) == Case.nodes[n]
Ns == 1..Len(Case.nodes)
Edges == {<<e[1], e[2], e[3], e[4]>> : e \in Range(Case.edges)}
---------------------------------------------------------------------------
(* counting and costs *)
Ignored == {"prelude.Noop", "prelude.MakeTuple", "prelude.UnpackTuple"}
Counts(o) == Op(o).kind = "op" /\ Op(o).name \notin Ignored
Unitary == {"H", "CX", "T", "S", "V", "X", "Y", "Z", "Tdg", "Sdg", "Vdg", "Rz", "Rx", "Toffoli", "Ry", "CZ", "CY", "CRz"}
Is(o, g) == Op(o).kind = "op" /\ Op(o).name = "tket.quantum." \o g
IsGate(o) == \E g \in Unitary : Is(o, g)
B(x) == IF x THEN 1 ELSE 0
IsTket(o) == IF Op(o).kind # "op" THEN FALSE ELSE LET n == Op(o).name IN Len(n) > 13 /\ SubSeq(n, 1, 13) = "tket.quantum."
Weight(o) == IF Is(o, "CX") THEN 5 ELSE IF Is(o, "H") THEN 2 ELSE IF Is(o, "T") \/ Is(o, "Tdg") THEN 3 ELSE IF Is(o, "X") THEN 0 ELSE B(IsTket(o))
Cost(f, o) == CASE f = "cx" -> <<B(Is(o, "CX")), B(IsGate(o))>> [] f = "rz" -> <<B(Is(o, "Rz")), B(IsGate(o))>>
                [] f = "gcx" -> <<B(Is(o, "CX"))>> [] f = "w" -> <<Weight(o)>> [] f = "num" -> <<B(Counts(o))>>
Zero(f) == IF f \in {"cx", "rz"} THEN <<0, 0>> ELSE <<0>>
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
SumOps(f, s) == FoldSeq(LAMBDA o, acc : Add(acc, Cost(f, o)), Zero(f), s)
\* number of operations counts nested ones; the others look at the operations of the region
Nested(f) == f = "num"
NodeOps(f, n) == <<Node(n).o>> \o (IF Nested(f) THEN Node(n).inner ELSE <<>>)
SumNodes(f, S) == FoldSet(LAMBDA n, acc : Add(acc, SumOps(f, NodeOps(f, n))), Zero(f), S)
NewOps(f, x) == x.new \o (IF Nested(f) THEN x.inner ELSE <<>>)
Less(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Leq(a, b) == a = b \/ Less(a, b)
BagOf(s) == [o \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = o})]
---------------------------------------------------------------------------
(* one proposal *)
Subs(r) == Range(r.sub)
RealDelta(f, x) == Sub(SumOps(f, NewOps(f, x)), SumNodes(f, Range(x.gone)))
AllNodes(x) == Len(x.new) + Len(x.inner) - FoldSet(LAMBDA n, a : a + 1 + Len(Node(n).inner), 0, Range(x.gone))
Outside(r) == {e \in Edges : e[1] \notin Subs(r) /\ e[3] \notin Subs(r)}
\* an edge into the region and one out of it may become one edge
Through(r) == {e \in {<<x[1], x[2], x[3], x[4]>> : x \in Range(r.edges)} : ~(\E y \in Edges : y[3] \in Subs(r) /\ y[1] = e[1] /\ y[2] = e[2]) \/ ~(\E y \in Edges : y[1] \in Subs(r) /\ y[3] = e[3] /\ y[4] = e[4])}
Proposal(r) ==
  IF "bad" \in DOMAIN r THEN r.bad
  ELSE IF Subs(r) = {} THEN "nothing is replaced"
  ELSE IF ~(Subs(r) \subseteq Range(r.inval)) THEN "replaced operations are not reported as changed"
  ELSE IF Range(r.gone) # Subs(r) THEN "replaced " \o ToString(Range(r.gone)) \o " instead of " \o ToString(Subs(r))
  ELSE IF BagOf(r.new) # BagOf(r.repl) THEN "the operations put in place are not those of the replacement"
  ELSE IF \E x \in Range(r.kept) : x[2] # Node(x[1]).o THEN "an operation outside the region changed"
  ELSE IF \E e \in Outside(r) : e[1] \notin Range(r.inval) /\ e[3] \notin Range(r.inval) /\ ~(\E x \in Range(r.edges) : <<x[1], x[2], x[3], x[4]>> = e) THEN "a connection outside the region is lost"
  ELSE IF ~(Through(r) \subseteq Outside(r)) THEN "a connection outside the region appeared: " \o ToString(Through(r) \ Outside(r))
  ELSE IF r.delta # RealDelta("num", r)[1] /\ r.delta # AllNodes(r) THEN "declares a difference of " \o ToString(r.delta) \o ", it is " \o ToString(RealDelta("num", r)[1])
  ELSE ""
---------------------------------------------------------------------------
(* strategies *)
Rws == 1..Len(Case.rws)
R(i) == Case.rws[i]
Delta(s, i) == RealDelta(s.cost, R(i))
Target(s, i) == SumOps(s.cost, NewOps(s.cost, R(i)))
Pattern(s, i) == SumNodes(s.cost, Subs(R(i)))
Accept(s, i) == CASE s.kind = "greedy" -> Delta(s, i)[1] < 0
                  [] s.cost \in {"cx", "rz"} -> Target(s, i)[1] - Pattern(s, i)[1] <= 0
                  [] OTHER -> Target(s, i)[1] * s.den < s.num * Pattern(s, i)[1]
Accepted(s) == {i \in Rws : Accept(s, i)}
\* sets of proposals that together remove exactly these nodes
RECURSIVE Explain(_, _, _)
Explain(acc, gone, A) ==
  IF gone = {} THEN {A}
  ELSE LET m == Min(gone) IN UNION {Explain(acc, gone \ Subs(R(i)), A \cup {i}) : i \in {i \in acc : m \in Subs(R(i)) /\ Subs(R(i)) \subseteq gone}}
Fits(s, A, x) == /\ BagOf(x.new) = BagOf(FoldSet(LAMBDA i, acc : acc \o R(i).new, <<>>, A))
                 /\ x.delta = FoldSet(LAMBDA i, acc : Add(acc, Delta(s, i)), Zero(s.cost), A)
How(s, acc, x) == {A \in Explain(acc, Range(x.gone), {}) : Fits(s, A, x)}
\* the proposals replaced together would feed each other in a circle
Group(A, n) == IF \E i \in A : n \in Subs(R(i)) THEN -(CHOOSE i \in A : n \in Subs(R(i))) ELSE n
RECURSIVE Shrink(_, _)
Shrink(V, E) == LET free == {v \in V : ~\E e \in E : e[2] = v} IN IF free = {} THEN V ELSE Shrink(V \ free, {e \in E : e[1] \notin free})
Circle(A) == LET E == {<<Group(A, e[1]), Group(A, e[3])>> : e \in Edges}
             IN Shrink({Group(A, n) : n \in Ns}, {e \in E : e[1] # e[2]}) # {}
Overlap(i, j) == Subs(R(i)) \cap Subs(R(j)) # {}
\* all that could be added has been added, cheapest first; `from` is the difference the choice started at
Maximal(s, acc, A, from) ==
  \A i \in acc \ A : Less(from, Delta(s, i)) => \/ \E j \in A : Overlap(i, j) /\ Leq(Delta(s, j), Delta(s, i))
                                                \/ Circle(A \cup {i})
MinDelta(s, A) == CHOOSE d \in {Delta(s, i) : i \in A} : \A i \in A : Leq(d, Delta(s, i))
Result(s, acc, x) ==
  IF "bad" \in DOMAIN x THEN "a result is not a valid circuit: " \o x.bad
  ELSE IF x.delta # Sub(x.after, s.before) THEN "declares a cost difference of " \o ToString(x.delta) \o " although the cost went from " \o ToString(s.before) \o " to " \o ToString(x.after)
  ELSE IF x.delta # RealDelta(s.cost, x) THEN "cost functions disagree: " \o ToString(x.delta) \o " and " \o ToString(RealDelta(s.cost, x))
  ELSE IF s.kind # "greedy" /\ x.gone = <<>> THEN "a result without a rewrite"
  ELSE LET H == How(s, acc, x) IN
       IF H = {} THEN "a result that no accepted proposals generate"
       ELSE IF s.kind = "thr" /\ (\A A \in H : Cardinality(A) # 1) THEN "several proposals at once"
       ELSE IF s.kind = "greedy" /\ (\A A \in H : ~Maximal(s, acc, A, <<-1000>>)) THEN "a proposal that pays off was not applied"
       ELSE IF s.kind = "exh" /\ (\A A \in H : ~Maximal(s, acc, A, MinDelta(s, A))) THEN "a compatible proposal was not applied"
       ELSE ""
Covered(s, acc, i) == \E x \in Range(s.res) : \E A \in How(s, acc, x) : i \in A /\ (s.kind = "thr" => A = {i}) /\ (s.kind = "exh" => MinDelta(s, A) = Delta(s, i))
Strategy(s) ==
  IF "bad" \in DOMAIN s THEN s.name \o ": " \o s.bad
  ELSE IF s.before # SumNodes(s.cost, Ns) /\ s.kind # "greedy" THEN s.name \o ": the cost of the circuit is given as " \o ToString(s.before) \o ", it is " \o ToString(SumNodes(s.cost, Ns))
  ELSE LET acc == Accepted(s)
           bad == {j \in DOMAIN s.res : Result(s, acc, s.res[j]) # ""}
           price == {i \in Rws : s.kind # "greedy" /\ (s.pre[i] # Pattern(s, i) \/ s.post[i] # Target(s, i))}
           missed == IF s.kind = "greedy" THEN {} ELSE {i \in acc : ~Covered(s, acc, i)}
       IN IF bad # {} THEN s.name \o ": " \o Result(s, acc, s.res[Min(bad)])
          ELSE IF price # {} THEN s.name \o ": wrong price for proposal " \o ToString(Min(price))
          ELSE IF Len(s.res) # (IF s.kind = "greedy" THEN 1 ELSE Cardinality(acc)) THEN s.name \o ": " \o ToString(Len(s.res)) \o " results for " \o ToString(Cardinality(acc)) \o " accepted proposals"
          ELSE IF missed # {} THEN s.name \o ": no result starts from accepted proposal " \o ToString(Min(missed))
          ELSE ""
---------------------------------------------------------------------------
Total == Len(Case.rws) + Len(Case.strats)
Reason(i) == IF i <= Len(Case.rws) THEN Proposal(R(i)) ELSE Strategy(Case.strats[i - Len(Case.rws)])
Usable == \A i \in Rws : "bad" \notin DOMAIN R(i)
Start == /\ verdict = "" /\ k = 0
         /\ IF "bad" \in DOMAIN Case THEN verdict' = "bad" /\ Say("bad", Case.bad) /\ UNCHANGED <<c, k>> ELSE k' = 1 /\ UNCHANGED <<c, verdict>>
Step == /\ verdict = "" /\ k > 0 /\ k <= Total
        /\ LET why == IF k > Len(Case.rws) /\ ~Usable THEN "" ELSE Reason(k) IN
           IF why # "" THEN verdict' = "rejected" /\ Say("rejected", why) /\ UNCHANGED <<c, k>> ELSE k' = k + 1 /\ UNCHANGED <<c, verdict>>
Finish == /\ verdict = "" /\ k > Total /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, k>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
