----------------------------- MODULE HugrMachine -----------------------------
(* Small-step operational semantics of HUGR programs.                                             *)
(*                                                                                                *)
(* A program is a sequence of regions.  A region is a record                                       *)
(*    [i : input wires, o : output wires, b : instructions in a dependency-respecting order]       *)
(* and an instruction                                                                              *)
(*    [op : name, i : input wires, o : output wires, a : arguments, r : child regions, ...].       *)
(*                                                                                                *)
(* Values are tagged tuples:  <<"s", tag, <<values>>>> sums (HUGR booleans are unit sums 0/1),      *)
(* <<"i", n>> integers, <<"f", num, den, k>> the number (num/den) * pi^k, <<"q", id>> qubits,       *)
(* <<"fut", id>> deferred measurement, <<"arr", <<values>>>> arrays, <<"hole">> a borrowed array    *)
(* slot, <<"fn", region>> functions, <<"str", text>>, <<"err", code, text>>.                        *)
(*                                                                                                *)
(* A branch is one run with a fixed sequence of measurement outcomes so far:                        *)
(*   env  wire values of the current function frame      stk  activation stack                     *)
(*   q,u,v  quantum state (QState)                       nid  next fresh name                      *)
(*   futs outstanding deferred measurements              res  results reported so far              *)
(*   bar  barriers passed                                gc   gates each qubit went through         *)
(*   fin  <<>> while running, otherwise the key the run ended with                                  *)
(*   cs   the qubits controlling everything done now (inside a controlled function)                   *)
(*   tp   one recording per inverted function being run: the gates it does are noted there, and       *)
(*        undone in reverse order when it returns          vq  stand-ins for its qubits meanwhile     *)
EXTENDS QState, FiniteSets, SequencesExt

B(t) == <<"s", t, <<>>>>
BoolV(x) == IF x THEN B(1) ELSE B(0)
IsTrue(v) == v[2] = 1
Unit == <<"s", 0, <<>>>>

-----------------------------------------------------------------------------
(* Rational multiples of powers of pi *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Rat(n, d, k) ==
  IF n = 0 THEN <<"f", 0, 1, 0>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           sg == IF d < 0 THEN -1 ELSE 1
       IN <<"f", sg * (n \div g), sg * (d \div g), k>>
\* (exact division: g divides both, \div is floor division)
Bad == <<"bad">>
IsF(x) == x[1] = "f"
Small(n) == n < 30000 /\ n > -30000
FltMul(x, y) == IF ~IsF(x) \/ ~IsF(y) THEN Bad ELSE
              LET g1 == Gcd(Abs(x[2]), y[3])  g2 == Gcd(Abs(y[2]), x[3])
                  a1 == IF g1 = 0 THEN 1 ELSE g1   a2 == IF g2 = 0 THEN 1 ELSE g2
                  n1 == x[2] \div a1  d2 == y[3] \div a1
                  n2 == y[2] \div a2  d1 == x[3] \div a2
              IN IF Small(n1) /\ Small(n2) /\ Small(d1) /\ Small(d2) THEN Rat(n1 * n2, d1 * d2, x[4] + y[4]) ELSE Bad
FltAdd(x, y) == IF ~IsF(x) \/ ~IsF(y) THEN Bad
              ELSE IF x[2] = 0 THEN y ELSE IF y[2] = 0 THEN x
              ELSE IF x[4] # y[4] THEN Bad
              ELSE LET g == Gcd(x[3], y[3]) m1 == y[3] \div g m2 == x[3] \div g IN
                   IF Small(x[2]) /\ Small(y[2]) /\ Small(m1) /\ Small(m2) /\ Small(x[3])
                   THEN Rat(x[2] * m1 + y[2] * m2, x[3] * m1, x[4]) ELSE Bad
FltNeg(x) == IF IsF(x) THEN <<"f", -x[2], x[3], x[4]>> ELSE Bad
FltInv(x) == IF ~IsF(x) THEN Bad ELSE IF x[2] = 0 THEN Bad
             ELSE Rat(x[3], x[2], -x[4])
FltLt(x, y) == LET d == FltAdd(x, FltNeg(y)) IN d[2] < 0     \* only when FltAdd is defined

\* angle in units of 1/2048 half turn, from half turns (k = 0) or radians (k = 1)
AngOk(x, k) == IsF(x) /\ (x[2] = 0 \/ (x[4] = k /\ 2048 % x[3] = 0 /\ Abs(x[2]) < 500000))
Ang(x) == IF x[2] = 0 THEN 0 ELSE (x[2] * (2048 \div x[3])) % 8192   \* rotations have period 4 half turns

-----------------------------------------------------------------------------
(* Environment *)
NoEnv == [x \in {} |-> 0]
RECURSIVE BindAll(_, _, _)
BindAll(env, ws, vs) ==
  IF ws = <<>> THEN env
  ELSE BindAll((Head(ws) :> Head(vs)) @@ env, Tail(ws), Tail(vs))
Get(b, w) == b.env[w]
GetAll(b, ws) == [k \in 1..Len(ws) |-> b.env[ws[k]]]

\* advance past the current instruction, binding its outputs
PopPc(b) == [b.stk EXCEPT ![Len(b.stk)].pc = @ + 1]
Ret(b, in, vs) == [b EXCEPT !.env = BindAll(@, in.o, vs), !.stk = PopPc(b)]
One(b, in, vs) == <<Ret(b, in, vs)>>
End(b, key) == <<[b EXCEPT !.fin = key, !.stk = <<>>, !.env = NoEnv]>>
Unsup(b, in) == End(b, <<"unsup", in.op>>)
Fault(b, why) == End(b, <<"fault", why>>)

-----------------------------------------------------------------------------
(* Quantum primitives on branches *)
Pos(b, x) == PosOf(b.q, x[2])
Real(b, x) == x[1] = "q" /\ HasQ(b.q, x[2])
Live(b, x) == x[1] = "q" /\ (HasQ(b.q, x[2]) \/ x[2] \in b.vq)
AllLive(b, xs) == \A k \in 1..Len(xs) : Live(b, xs[k])
Distinct(xs) == \A i, j \in 1..Len(xs) : i # j => xs[i][2] # xs[j][2]

App(b, x, m1, m2, cs) ==
  LET j == Pos(b, x) cp == [k \in 1..Len(cs) |-> Pos(b, cs[k])]
  IN [b EXCEPT !.u = ApplyV(@, j, m1, cp), !.v = ApplyV(@, j, m2, cp)]
Ph(b, k, cs) ==
  LET cp == [n \in 1..Len(cs) |-> Pos(b, cs[n])]
  IN [b EXCEPT !.u = PhaseV(@, ZPow(k), cp), !.v = PhaseV(@, ZPow(-k), cp)]
NewQ(b) == [b EXCEPT !.q = Append(@, b.nid), !.u = AllocV(@), !.v = AllocV(@), !.nid = @ + 1]
DropPos(q, j) == [k \in 1..(Len(q) - 1) |-> IF k < j THEN q[k] ELSE q[k + 1]]
Cut(b, x, val) == LET j == Pos(b, x) IN
  [b EXCEPT !.q = DropPos(@, j), !.u = CutV(@, j, val), !.v = CutV(@, j, val)]
Proj(b, x, val) == LET j == Pos(b, x) IN
  [b EXCEPT !.u = ProjV(@, j, val), !.v = ProjV(@, j, val)]
Dead(b) == IsZero(b.u) \/ IsZero(b.v)
Prune(bs) == SelectSeq(bs, LAMBDA b : ~Dead(b))

\* Gates: the branch after applying the gate g with angles ts (units of 1/2048 half turn) to xs,
\* under extra controls cs.  The global phase convention matters only under controls.
GateKnown == {"H","X","Y","Z","S","Sdg","T","Tdg","V","Vdg","SX","SXdg","Rx","Ry","Rz","CX","CY","CZ","CH","CV",
              "CVdg","CSX","CSXdg","CS","CSdg","CRx","CRy","CRz","CU1","U1","CCX","Toffoli","SWAP","CSWAP","ZZPhase",
              "XXPhase","YYPhase","PhasedX","TK1","TK2","U2","U3","CU3","ZZMax","ISWAP","ISWAPMax","PhasedISWAP",
              "Phase","noop","XXPhase3","BRIDGE","CnX","CnY","CnZ","CnRy","CnRx","CnRz","NPhasedX","Opaque"}
RECURSIVE Gate(_, _, _, _, _)
RECURSIVE GateSeq(_, _, _)
\* apply a list of <<name, angles, qubits>>
GateSeq(b, gs, cs) == IF gs = <<>> THEN b
  ELSE GateSeq(Gate(b, gs[1][1], gs[1][2], gs[1][3], cs), Tail(gs), cs)
Rest(xs) == SubSeq(xs, 1, Len(xs) - 1)
Gate(b, g, ts, xs, cs) ==
  CASE g = "H" -> App(b, xs[1], MH, MH, cs)
    [] g = "X" -> App(b, xs[1], MX, MX, cs)
    [] g = "Y" -> App(b, xs[1], MY(1), MY(-1), cs)
    [] g = "Z" -> Ph(b, 4096, cs \o xs)
    [] g = "S" -> Ph(b, 2048, cs \o xs)
    [] g = "Sdg" -> Ph(b, -2048, cs \o xs)
    [] g = "T" -> Ph(b, 1024, cs \o xs)
    [] g = "Tdg" -> Ph(b, -1024, cs \o xs)
    [] g = "V" -> App(b, xs[1], MRx(1024, 1), MRx(1024, -1), cs)
    [] g = "Vdg" -> App(b, xs[1], MRx(-1024, 1), MRx(-1024, -1), cs)
    [] g = "SX" -> Ph(App(b, xs[1], MRx(1024, 1), MRx(1024, -1), cs), 1024, cs)
    [] g = "SXdg" -> Ph(App(b, xs[1], MRx(-1024, 1), MRx(-1024, -1), cs), -1024, cs)
    [] g = "Rx" -> App(b, xs[1], MRx(ts[1], 1), MRx(ts[1], -1), cs)
    [] g = "Ry" -> App(b, xs[1], MRy(ts[1], 1), MRy(ts[1], -1), cs)
    [] g = "Rz" -> App(b, xs[1], MRz(ts[1], 1), MRz(ts[1], -1), cs)
    [] g = "U1" -> Ph(b, 2 * ts[1], cs \o xs)
    [] g = "CX" -> Gate(b, "X", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CY" -> Gate(b, "Y", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CZ" -> Ph(b, 4096, cs \o xs)
    [] g = "CH" -> Gate(b, "H", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CV" -> Gate(b, "V", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CVdg" -> Gate(b, "Vdg", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CSX" -> Gate(b, "SX", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CSXdg" -> Gate(b, "SXdg", <<>>, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CS" -> Ph(b, 2048, cs \o xs)
    [] g = "CSdg" -> Ph(b, -2048, cs \o xs)
    [] g = "CRx" -> Gate(b, "Rx", ts, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CRy" -> Gate(b, "Ry", ts, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CRz" -> Gate(b, "Rz", ts, <<xs[2]>>, cs \o <<xs[1]>>)
    [] g = "CU1" -> Ph(b, 2 * ts[1], cs \o xs)
    [] g \in {"CCX", "Toffoli"} -> Gate(b, "X", <<>>, <<xs[3]>>, cs \o <<xs[1], xs[2]>>)
    [] g = "CnX" -> Gate(b, "X", <<>>, <<Last(xs)>>, cs \o Rest(xs))
    [] g = "CnY" -> Gate(b, "Y", <<>>, <<Last(xs)>>, cs \o Rest(xs))
    [] g = "CnZ" -> Ph(b, 4096, cs \o xs)
    [] g = "CnRy" -> Gate(b, "Ry", ts, <<Last(xs)>>, cs \o Rest(xs))
    [] g = "CnRx" -> Gate(b, "Rx", ts, <<Last(xs)>>, cs \o Rest(xs))
    [] g = "CnRz" -> Gate(b, "Rz", ts, <<Last(xs)>>, cs \o Rest(xs))
    [] g = "SWAP" -> GateSeq(b, <<<<"CX", <<>>, xs>>, <<"CX", <<>>, <<xs[2], xs[1]>>>>, <<"CX", <<>>, xs>>>>, cs)
    [] g = "CSWAP" -> Gate(b, "SWAP", <<>>, <<xs[2], xs[3]>>, cs \o <<xs[1]>>)
    [] g = "BRIDGE" -> Gate(b, "CX", <<>>, <<xs[1], xs[3]>>, cs)
    [] g = "ZZPhase" -> GateSeq(b, <<<<"CX", <<>>, xs>>, <<"Rz", ts, <<xs[2]>>>>, <<"CX", <<>>, xs>>>>, cs)
    [] g = "XXPhase" -> GateSeq(b, <<<<"H", <<>>, <<xs[1]>>>>, <<"H", <<>>, <<xs[2]>>>>, <<"ZZPhase", ts, xs>>,
                                     <<"H", <<>>, <<xs[1]>>>>, <<"H", <<>>, <<xs[2]>>>>>>, cs)
    [] g = "YYPhase" -> GateSeq(b, <<<<"Rx", <<1024>>, <<xs[1]>>>>, <<"Rx", <<1024>>, <<xs[2]>>>>, <<"ZZPhase", ts, xs>>,
                                     <<"Rx", <<-1024>>, <<xs[1]>>>>, <<"Rx", <<-1024>>, <<xs[2]>>>>>>, cs)
    [] g = "ZZMax" -> Gate(b, "ZZPhase", <<1024>>, xs, cs)
    [] g = "TK2" -> GateSeq(b, <<<<"XXPhase", <<ts[1]>>, xs>>, <<"YYPhase", <<ts[2]>>, xs>>, <<"ZZPhase", <<ts[3]>>, xs>>>>, cs)
    [] g = "XXPhase3" -> GateSeq(b, <<<<"XXPhase", ts, <<xs[1], xs[2]>>>>, <<"XXPhase", ts, <<xs[2], xs[3]>>>>,
                                      <<"XXPhase", ts, <<xs[1], xs[3]>>>>>>, cs)
    [] g = "PhasedX" -> App(b, xs[1], MPhX(ts[1], ts[2], 1), MPhX(ts[1], ts[2], -1), cs)
    [] g = "TK1" -> App(b, xs[1], MTK1(ts[1], ts[2], ts[3], 1), MTK1(ts[1], ts[2], ts[3], -1), cs)
    \* U3(t,p,l) = e^{i pi (l+p)/2} Rz(p) Ry(t) Rz(l)
    [] g = "U3" -> Ph(GateSeq(b, <<<<"Rz", <<ts[3]>>, xs>>, <<"Ry", <<ts[1]>>, xs>>, <<"Rz", <<ts[2]>>, xs>>>>, cs), ts[2] + ts[3], cs)
    [] g = "U2" -> Gate(b, "U3", <<1024, ts[1], ts[2]>>, xs, cs)
    [] g = "CU3" -> Gate(b, "U3", ts, <<xs[2]>>, cs \o <<xs[1]>>)
    \* ISWAP(a) = exp(i pi a/4 (XX+YY)) = TK2(-a/2, -a/2, 0)
    [] g = "ISWAP" -> GateSeq(b, <<<<"XXPhase", <<-(ts[1] \div 2)>>, xs>>, <<"YYPhase", <<-(ts[1] \div 2)>>, xs>>>>, cs)
    [] g = "ISWAPMax" -> Gate(b, "ISWAP", <<2048>>, xs, cs)
    \* PhasedISWAP(p, t) = (Rz(p) x Rz(-p)) ISWAP(t) (Rz(-p) x Rz(p))   with p in half turns of the Rz angle: U1(p)
    [] g = "PhasedISWAP" -> GateSeq(b, <<<<"Rz", <<-ts[1] * 1>>, <<xs[1]>>>>, <<"Rz", <<ts[1]>>, <<xs[2]>>>>,
                                         <<"ISWAP", <<ts[2]>>, xs>>,
                                         <<"Rz", <<ts[1]>>, <<xs[1]>>>>, <<"Rz", <<-ts[1]>>, <<xs[2]>>>>>>, cs)
    [] g = "Phase" -> Ph(b, 2 * ts[1], cs)
    [] g = "noop" -> b
    [] g = "NPhasedX" -> GateSeq(b, [k \in 1..Len(xs) |-> <<"PhasedX", ts, <<xs[k]>>>>], cs)
    \* A gate the implementation knows nothing about: some fixed entangling unitary that depends on its identity ts[1].
    [] g = "Opaque" -> GateSeq(b, [k \in 1..Len(xs) |-> <<"TK1", <<ts[1] * 37 + 11 * k, ts[1] * 101 + 7, ts[1] * 59 + 3 * k>>, <<xs[k]>>>>]
                              \o [k \in 1..(Len(xs) - 1) |-> <<"CX", <<>>, <<xs[k], xs[k + 1]>>>>]
                              \o [k \in 1..Len(xs) |-> <<"TK1", <<ts[1] * 71 + 5 * k, ts[1] * 13 + 1, 17 * k>>, <<xs[k]>>>>], cs)

\* In a modified function: the gate under the current controls, or on the recording.  The global phase of V matters here:
\* V is the square root of X.
Phased(g) == CASE g = "V" -> "SX" [] g = "Vdg" -> "SXdg" [] OTHER -> g
Emit(b, g, ts, xs) ==
  IF b.tp = <<>> THEN Gate(b, IF b.cs = <<>> THEN g ELSE Phased(g), ts, xs, b.cs)
  ELSE [b EXCEPT !.tp[Len(b.tp)] = Append(@, <<Phased(g), ts, xs, b.cs>>)]
SelfInverse == {"H", "X", "Y", "Z", "CX", "CY", "CZ", "CH", "CCX", "Toffoli", "SWAP", "CSWAP", "noop"}
Turns == {"Rx", "Ry", "Rz", "CRx", "CRy", "CRz", "U1", "CU1", "Phase", "ZZPhase", "XXPhase", "YYPhase", "TK2"}
InvName(g) == CASE g = "S" -> "Sdg" [] g = "Sdg" -> "S" [] g = "T" -> "Tdg" [] g = "Tdg" -> "T" [] g = "SX" -> "SXdg" [] g = "SXdg" -> "SX"
                [] OTHER -> g
Invertible(g) == g \in SelfInverse \cup Turns \cup {"S", "Sdg", "T", "Tdg", "SX", "SXdg"}

DoGate(b, in, g, ts, xs) ==
  IF ~AllLive(b, xs) THEN Fault(b, "dead qubit")
  ELSE IF ~Distinct(xs) THEN Fault(b, "aliased qubits")
  ELSE LET c == Emit(b, g, ts, xs)
           ids == {xs[k][2] : k \in 1..Len(xs)}
       IN One([c EXCEPT !.gc = [n \in (DOMAIN @) \cup ids |-> (IF n \in DOMAIN @ THEN @[n] ELSE 0) + (IF n \in ids THEN 1 ELSE 0)]], in, xs)

\* Barriers are recorded as the set of <<qubit, gates it went through so far>>, under the name of the kind of barrier.
\* A source barrier covers the qubits of its operands: inside tuples and arrays (also arrays of options), not in bare options.
RECURSIVE BarQ(_, _)
BarQ(x, inarr) ==
  CASE x[1] = "q" -> {x[2]}
    [] x[1] = "arr" -> UNION {BarQ(x[2][k], TRUE) : k \in 1..Len(x[2])}
    [] x[1] = "s" -> IF x[2] = 0 \/ (inarr /\ Len(x[3]) = 1 /\ x[3][1][1] = "q") THEN UNION {BarQ(x[3][k], FALSE) : k \in 1..Len(x[3])} ELSE {}
    [] OTHER -> {}
Bar(b, kind, xs) ==
  LET ids == UNION {BarQ(xs[k], FALSE) : k \in 1..Len(xs)}
      n(i) == IF i \in DOMAIN b.gc THEN b.gc[i] ELSE 0
  IN IF ids = {} THEN b ELSE [b EXCEPT !.bar = Append(@, <<kind, {<<i, n(i)>> : i \in ids}>>)]

\* Measurement: the branches for outcomes 0 and 1 (k(b, outcome) continues)
MeasSplit(b, x, K(_, _), drop) ==
  IF ~Real(b, x) THEN Fault(b, "dead qubit")
  ELSE IF b.cs # <<>> THEN Fault(b, "measurement under control")
  ELSE LET s(o) == IF drop THEN Cut(b, x, o) ELSE Proj(b, x, o)
           b0 == s(0)  b1 == s(1)
       IN (IF Dead(b0) THEN <<>> ELSE K(b0, 0)) \o (IF Dead(b1) THEN <<>> ELSE K(b1, 1))

\* Reset: both outcomes, qubit put back to 0
ResetSplit(b, x, K(_, _)) ==
  MeasSplit(b, x, LAMBDA c, o : K(IF o = 1 THEN App(c, x, MX, MX, <<>>) ELSE c, o), FALSE)

\* Deferred values
NewFut(b, val) == [b EXCEPT !.futs = (b.nid :> val) @@ @, !.nid = @ + 1]
DelFut(b, id) == [b EXCEPT !.futs = [k \in (DOMAIN @) \ {id} |-> @[k]]]

-----------------------------------------------------------------------------
(* Integers of 2^w bits. 64-bit values are kept as small signed numbers. *)
IntBits(w) == P2(w)
TwoTo(n) == IF n <= 12 THEN P2(n) ELSE P2(12) * P2(n - 12)
NormI(n, w) == IF w <= 4 THEN n % TwoTo(IntBits(w)) ELSE n
SgnI(n, w) == IF w <= 4 /\ n >= TwoTo(IntBits(w)) \div 2 THEN n - TwoTo(IntBits(w)) ELSE n
RECURSIVE BitOp(_, _, _, _)
BitOp(op, x, y, k) == IF k = 0 THEN 0 ELSE
   LET a == x % 2 c == y % 2
       r == CASE op = "iand" -> IF a = 1 /\ c = 1 THEN 1 ELSE 0
              [] op = "ior" -> IF a = 1 \/ c = 1 THEN 1 ELSE 0
              [] op = "ixor" -> IF a # c THEN 1 ELSE 0
   IN r + 2 * BitOp(op, x \div 2, y \div 2, k - 1)
OptSome(vs) == <<"s", 1, vs>>
OptNone == <<"s", 0, <<>>>>

IntOp(b, in) ==
  LET w == IF Len(in.a) > 0 THEN in.a[1] ELSE 6
      xs == GetAll(b, in.i)
      x == xs[1][2]
      y == IF Len(xs) > 1 THEN xs[2][2] ELSE 0
      r(n) == One(b, in, <<<<"i", NormI(n, w)>>>>)
      t(p) == One(b, in, <<BoolV(p)>>)
      sx == SgnI(x, w)  sy == SgnI(y, w)
      div0 == End(b, <<"panic", "div0", b.res>>)
      uok == x >= 0 /\ y >= 0
      o == in.op
      \* Euclidean / floor semantics for positive divisors
      dv == sx \div y  md == sx % y
  IN CASE o = "arithmetic.int.iadd" -> r(x + y)
       [] o = "arithmetic.int.isub" -> r(x - y)
       [] o = "arithmetic.int.imul" -> IF Abs(sx) < 40000 /\ Abs(sy) < 40000 THEN r(x * y) ELSE Unsup(b, in)
       [] o = "arithmetic.int.ineg" -> r(-x)
       [] o = "arithmetic.int.iabs" -> r(Abs(sx))
       [] o = "arithmetic.int.ieq" -> t(x = y)
       [] o = "arithmetic.int.ine" -> t(x # y)
       [] o = "arithmetic.int.ilt_s" -> t(sx < sy)
       [] o = "arithmetic.int.ile_s" -> t(sx <= sy)
       [] o = "arithmetic.int.igt_s" -> t(sx > sy)
       [] o = "arithmetic.int.ige_s" -> t(sx >= sy)
       [] o \in {"arithmetic.int.ilt_u","arithmetic.int.ile_u","arithmetic.int.igt_u","arithmetic.int.ige_u"} ->
            IF ~uok THEN Unsup(b, in) ELSE
            t(CASE o = "arithmetic.int.ilt_u" -> x < y [] o = "arithmetic.int.ile_u" -> x <= y
                [] o = "arithmetic.int.igt_u" -> x > y [] OTHER -> x >= y)
       [] o = "arithmetic.int.imax_u" -> IF uok THEN r(IF x > y THEN x ELSE y) ELSE Unsup(b, in)
       [] o = "arithmetic.int.imin_u" -> IF uok THEN r(IF x < y THEN x ELSE y) ELSE Unsup(b, in)
       [] o = "arithmetic.int.imax_s" -> r(IF sx > sy THEN x ELSE y)
       [] o = "arithmetic.int.imin_s" -> r(IF sx < sy THEN x ELSE y)
       [] o \in {"arithmetic.int.iand", "arithmetic.int.ior", "arithmetic.int.ixor"} ->
            IF uok THEN r(BitOp(in.n, x, y, 30)) ELSE Unsup(b, in)
       [] o \in {"arithmetic.int.idivmod_u", "arithmetic.int.idiv_u", "arithmetic.int.imod_u"} ->
            IF ~uok THEN Unsup(b, in) ELSE IF y = 0 THEN div0 ELSE
            One(b, in, CASE o = "arithmetic.int.idivmod_u" -> <<<<"i", x \div y>>, <<"i", x % y>>>>
                         [] o = "arithmetic.int.idiv_u" -> <<<<"i", x \div y>>>> [] OTHER -> <<<<"i", x % y>>>>)
       [] o \in {"arithmetic.int.idivmod_s", "arithmetic.int.idiv_s", "arithmetic.int.imod_s"} ->
            IF y < 0 THEN Unsup(b, in) ELSE IF y = 0 THEN div0 ELSE
            One(b, in, CASE o = "arithmetic.int.idivmod_s" -> <<<<"i", NormI(dv, w)>>, <<"i", md>>>>
                         [] o = "arithmetic.int.idiv_s" -> <<<<"i", NormI(dv, w)>>>> [] OTHER -> <<<<"i", md>>>>)
       [] o \in {"arithmetic.int.idivmod_checked_u", "arithmetic.int.idiv_checked_u", "arithmetic.int.imod_checked_u"} ->
            IF ~uok THEN Unsup(b, in)
            ELSE IF y = 0 THEN One(b, in, <<<<"s", 0, <<<<"err", 2, "Division by zero">>>>>>>>)
            ELSE One(b, in, << <<"s", 1, CASE o = "arithmetic.int.idivmod_checked_u" -> << <<"s", 0, <<<<"i", x \div y>>, <<"i", x % y>>>> >> >>
                         [] o = "arithmetic.int.idiv_checked_u" -> <<<<"i", x \div y>>>> [] OTHER -> <<<<"i", x % y>>>> >> >>)
       [] o \in {"arithmetic.int.iwiden_u"} -> IF x >= 0 THEN One(b, in, <<xs[1]>>) ELSE Unsup(b, in)
       [] o \in {"arithmetic.int.iwiden_s"} -> One(b, in, <<<<"i", NormI(sx, in.a[2])>>>>)
       [] o = "arithmetic.int.inarrow_u" ->
            IF x >= 0 /\ (in.a[2] >= 5 \/ x < TwoTo(IntBits(in.a[2]))) THEN One(b, in, <<<<"s", 1, <<xs[1]>>>>>>)
            ELSE One(b, in, <<<<"s", 0, <<<<"err", 0, "">>>>>>>>)
       [] o = "arithmetic.int.inarrow_s" ->
            IF in.a[2] >= 5 \/ (sx < TwoTo(IntBits(in.a[2]) - 1) /\ sx >= -TwoTo(IntBits(in.a[2]) - 1))
            THEN One(b, in, <<<<"s", 1, <<<<"i", NormI(sx, in.a[2])>>>>>>>>)
            ELSE One(b, in, <<<<"s", 0, <<<<"err", 0, "">>>>>>>>)
       [] o = "arithmetic.int.ishl" -> IF uok /\ y < 12 /\ x < 200000 THEN r(x * TwoTo(y)) ELSE Unsup(b, in)
       [] o = "arithmetic.int.ishr" -> IF uok /\ y < 24 THEN r(x \div TwoTo(y)) ELSE Unsup(b, in)
       [] o \in {"arithmetic.int.iu_to_s", "arithmetic.int.is_to_u"} -> One(b, in, <<xs[1]>>)
       [] OTHER -> Unsup(b, in)

FloatOp(b, in) ==
  LET xs == GetAll(b, in.i)
      x == xs[1]
      y == IF Len(xs) > 1 THEN xs[2] ELSE x
      d == FltAdd(x, FltNeg(y))
      r(v) == IF IsF(v) THEN One(b, in, <<v>>) ELSE Unsup(b, in)
      t(p) == IF IsF(d) THEN One(b, in, <<BoolV(p)>>) ELSE Unsup(b, in)
      o == in.op
  IN CASE o = "arithmetic.float.fadd" -> r(FltAdd(x, y))
       [] o = "arithmetic.float.fsub" -> r(d)
       [] o = "arithmetic.float.fneg" -> r(FltNeg(x))
       [] o = "arithmetic.float.fmul" -> r(FltMul(x, y))
       [] o = "arithmetic.float.fdiv" -> r(FltMul(x, FltInv(y)))
       [] o = "arithmetic.float.fabs" -> r(<<"f", Abs(x[2]), x[3], x[4]>>)
       [] o = "arithmetic.float.feq" -> t(d[2] = 0)
       [] o = "arithmetic.float.fne" -> t(d[2] # 0)
       [] o = "arithmetic.float.flt" -> t(d[2] < 0)
       [] o = "arithmetic.float.fle" -> t(d[2] <= 0)
       [] o = "arithmetic.float.fgt" -> t(d[2] > 0)
       [] o = "arithmetic.float.fge" -> t(d[2] >= 0)
       [] o = "arithmetic.float.fmax" -> IF IsF(d) THEN r(IF d[2] >= 0 THEN x ELSE y) ELSE Unsup(b, in)
       [] o = "arithmetic.float.fmin" -> IF IsF(d) THEN r(IF d[2] >= 0 THEN y ELSE x) ELSE Unsup(b, in)
       [] o = "arithmetic.float.ffloor" -> IF x[4] = 0 THEN r(Rat(x[2] \div x[3], 1, 0)) ELSE Unsup(b, in)
       [] o = "arithmetic.float.fceil" -> IF x[4] = 0 THEN r(Rat(-((-x[2]) \div x[3]), 1, 0)) ELSE Unsup(b, in)
       [] OTHER -> Unsup(b, in)

-----------------------------------------------------------------------------
(* Arrays. All array flavours share one value form; a borrowed slot is <<"hole">>. *)
Hole == <<"hole">>
ArrPanic(b, why) == End(b, <<"panic", why, b.res>>)
NoHoles(s) == \A k \in 1..Len(s) : s[k] # Hole
ArrOp(b, in, name) ==
  LET xs == GetAll(b, in.i)
      s == IF Len(xs) > 0 /\ xs[1][1] = "arr" THEN xs[1][2] ELSE <<>>
      n == Len(s)
      A(t) == <<"arr", t>>
      ix == IF Len(xs) > 1 /\ xs[2][1] = "i" THEN xs[2][2] ELSE -1
      inr(k) == k >= 0 /\ k < n
  IN CASE name = "new_array" -> One(b, in, <<A(xs)>>)
       [] name = "unpack" -> IF NoHoles(s) THEN One(b, in, s) ELSE ArrPanic(b, "borrowed")
       [] name = "get" -> IF ~inr(ix) THEN One(b, in, <<OptNone, xs[1]>>)
                          ELSE IF s[ix + 1] = Hole THEN ArrPanic(b, "borrowed")
                          ELSE One(b, in, <<OptSome(<<s[ix + 1]>>), xs[1]>>)
       [] name = "set" -> IF ~inr(ix) THEN One(b, in, <<<<"s", 0, <<xs[3], xs[1]>>>>>>)
                          ELSE IF s[ix + 1] = Hole THEN ArrPanic(b, "borrowed")
                          ELSE One(b, in, <<<<"s", 1, <<s[ix + 1], A([s EXCEPT ![ix + 1] = xs[3]])>>>>>>)
       [] name = "swap" -> LET j == xs[3][2] IN
                          IF ~inr(ix) \/ ~inr(j) THEN One(b, in, <<<<"s", 0, <<xs[1]>>>>>>)
                          ELSE IF s[ix + 1] = Hole \/ s[j + 1] = Hole THEN ArrPanic(b, "borrowed")
                          ELSE One(b, in, <<<<"s", 1, <<A([s EXCEPT ![ix + 1] = s[j + 1], ![j + 1] = s[ix + 1]])>>>>>>)
       [] name = "pop_left" -> IF n = 0 THEN One(b, in, <<OptNone>>)
                          ELSE IF s[1] = Hole THEN ArrPanic(b, "borrowed")
                          ELSE One(b, in, <<OptSome(<<s[1], A(Tail(s))>>)>>)
       [] name = "pop_right" -> IF n = 0 THEN One(b, in, <<OptNone>>)
                          ELSE IF s[n] = Hole THEN ArrPanic(b, "borrowed")
                          ELSE One(b, in, <<OptSome(<<s[n], A(SubSeq(s, 1, n - 1))>>)>>)
       [] name = "discard_empty" -> One(b, in, <<>>)
       [] name = "discard" -> IF NoHoles(s) THEN One(b, in, <<>>) ELSE ArrPanic(b, "borrowed")
       [] name = "clone" -> IF NoHoles(s) THEN One(b, in, <<xs[1], xs[1]>>) ELSE ArrPanic(b, "borrowed")
       [] name \in {"from_array", "to_array", "from_default_array", "to_default_array"} ->
                          IF NoHoles(s) THEN One(b, in, <<xs[1]>>) ELSE ArrPanic(b, "borrowed")
       [] name = "borrow" -> IF ~inr(ix) THEN ArrPanic(b, "oob")
                          ELSE IF s[ix + 1] = Hole THEN ArrPanic(b, "borrowed")
                          ELSE One(b, in, <<A([s EXCEPT ![ix + 1] = Hole]), s[ix + 1]>>)
       [] name = "return" -> IF ~inr(ix) THEN ArrPanic(b, "oob")
                          ELSE IF s[ix + 1] # Hole THEN ArrPanic(b, "notborrowed")
                          ELSE One(b, in, <<A([s EXCEPT ![ix + 1] = xs[3]])>>)
       [] name = "is_borrowed" -> IF ~inr(ix) THEN ArrPanic(b, "oob")
                          ELSE One(b, in, <<xs[1], BoolV(s[ix + 1] = Hole)>>)
       [] name = "discard_all_borrowed" -> IF \A k \in 1..n : s[k] = Hole THEN One(b, in, <<>>) ELSE ArrPanic(b, "notallborrowed")
       [] name = "new_all_borrowed" -> One(b, in, <<A([k \in 1..in.a[1] |-> Hole])>>)
       [] OTHER -> Unsup(b, in)

\* names of the gates of tket.quantum that act on qubits only, with their angle count
TQ0 == {"H","X","Y","Z","S","Sdg","T","Tdg","V","Vdg","CX","CY","CZ","Toffoli"}
TQ1 == {"Rx","Ry","Rz","CRz"}
QArity(g) == CASE g \in {"CX","CY","CZ","CRz","ZZPhase"} -> 2 [] g = "Toffoli" -> 3 [] OTHER -> 1

\* deferred-measurement representation of an opaque boolean after lowering is <<"s",0,<<bit>>>> or <<"s",1,<<fut>>>>
QOp(b, in, g) ==
  LET xs == GetAll(b, in.i) IN
  CASE g \in TQ0 -> DoGate(b, in, g, <<>>, xs)
    [] g \in TQ1 -> LET k == QArity(g) ang == xs[k + 1] IN
                    IF ~AngOk(ang, 0) THEN Unsup(b, in) ELSE DoGate(b, in, g, <<Ang(ang)>>, SubSeq(xs, 1, k))
    [] g = "QAlloc" -> LET c == NewQ(b) IN One(c, in, <<<<"q", b.nid>>>>)
    [] g = "TryQAlloc" -> LET c == NewQ(b) IN One(c, in, <<OptSome(<<<<"q", b.nid>>>>)>>)
    [] g = "QFree" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<>>), TRUE)
    [] g = "Reset" -> ResetSplit(b, xs[1], LAMBDA c, o : One(c, in, <<xs[1]>>))
    [] g = "Measure" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<xs[1], B(o)>>), FALSE)
    [] g = "MeasureFree" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<B(o)>>), TRUE)
    [] OTHER -> Unsup(b, in)

SysOp(b, in, g) ==
  LET xs == GetAll(b, in.i) IN
  CASE g = "Rz" -> IF ~AngOk(xs[2], 1) THEN Unsup(b, in) ELSE DoGate(b, in, "Rz", <<Ang(xs[2])>>, <<xs[1]>>)
    [] g = "PhasedX" -> IF ~AngOk(xs[2], 1) \/ ~AngOk(xs[3], 1) THEN Unsup(b, in)
                        ELSE DoGate(b, in, "PhasedX", <<Ang(xs[2]), Ang(xs[3])>>, <<xs[1]>>)
    [] g = "ZZPhase" -> IF ~AngOk(xs[3], 1) THEN Unsup(b, in)
                        ELSE DoGate(b, in, "ZZPhase", <<Ang(xs[3])>>, <<xs[1], xs[2]>>)
    [] g = "Measure" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<B(o)>>), TRUE)
    [] g = "LazyMeasure" -> MeasSplit(b, xs[1], LAMBDA c, o : One(NewFut(c, B(o)), in, <<<<"fut", c.nid>>>>), TRUE)
    [] g = "LazyMeasureLeaked" -> MeasSplit(b, xs[1], LAMBDA c, o : One(NewFut(c, <<"i", o>>), in, <<<<"fut", c.nid>>>>), TRUE)
    [] g = "LazyMeasureReset" -> ResetSplit(b, xs[1], LAMBDA c, o : One(NewFut(c, B(o)), in, <<xs[1], <<"fut", c.nid>>>>))
    [] g = "MeasureReset" -> ResetSplit(b, xs[1], LAMBDA c, o : One(c, in, <<xs[1], B(o)>>))
    [] g = "TryQAlloc" -> LET c == NewQ(b) IN One(c, in, <<OptSome(<<<<"q", b.nid>>>>)>>)
    [] g = "QFree" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<>>), TRUE)
    [] g = "Reset" -> ResetSplit(b, xs[1], LAMBDA c, o : One(c, in, <<xs[1]>>))
    [] g = "RuntimeBarrier" -> One(Bar(b, "run", xs), in, xs)
    [] OTHER -> Unsup(b, in)

FutOp(b, in, g) ==
  LET x == Get(b, in.i[1]) id == x[2] IN
  IF x[1] # "fut" \/ id \notin DOMAIN b.futs THEN Fault(b, "deferred value used after release")
  ELSE CASE g = "Read" -> One(DelFut(b, id), in, <<b.futs[id]>>)
         [] g = "Free" -> One(DelFut(b, id), in, <<>>)
         [] g = "Dup" -> LET c == NewFut(NewFut(DelFut(b, id), b.futs[id]), b.futs[id])
                         IN One(c, in, <<<<"fut", b.nid>>, <<"fut", b.nid + 1>>>>)
         [] OTHER -> Unsup(b, in)

\* An operation the model has no rule for, but declared uninterpreted by the exporter: a fixed unitary on its qubits and a
\* fixed function of its classical inputs, both determined by the operation's identity in.h
IsBit(x) == x[1] = "s" /\ Len(x[3]) = 0
RECURSIVE BitSum(_)
BitSum(xs) == IF xs = <<>> THEN 0 ELSE (IF IsBit(Head(xs)) THEN Head(xs)[2] ELSE 0) + BitSum(Tail(xs))
UninterpOp(b, in) ==
  LET xs == GetAll(b, in.i)
      qs == SelectSeq(xs, LAMBDA x : x[1] = "q")
      bit(k) == (BitSum(xs) + in.h + k) % 2
      \* classical inputs act as a parameter of the unitary
      c == IF qs = <<>> THEN b ELSE Gate(b, "Opaque", <<(in.h + 5 * BitSum(xs)) % 1000>>, qs, <<>>)
      nq(k) == Cardinality({m \in 1..k : in.ot[m] = "q"})
      outs == [k \in 1..Len(in.o) |-> CASE in.ot[k] = "q" -> qs[nq(k)]
                                       [] in.ot[k] = "b" -> B(bit(k))
                                       [] in.ot[k] = "f" -> <<"f", (in.h + k) % 8, 4, 0>>
                                       [] in.ot[k] = "i" -> <<"i", (in.h + k) % 8>>
                                       [] OTHER -> <<"tok", in.h, k>>]
  IN IF ~AllLive(b, qs) THEN Fault(b, "dead qubit")
     ELSE IF b.cs # <<>> \/ b.tp # <<>> THEN Unsup(b, in)
     ELSE One(IF in.eff = 1 THEN [c EXCEPT !.res = Append(@, <<"ext", in.h, BitSum(xs)>>)] ELSE c, in, outs)

-----------------------------------------------------------------------------
(* Pytket commands.  A command acts on qubits qs and on the registers bs, in that order whatever the order of its arguments;
   ps are the values its parameter expressions may refer to.  The result is a sequence of pairs <<branch, new bits>>.
   Register values are little-endian.                                                                              *)
RECURSIVE PkExp(_, _)
PkExp(e, ps) ==
  CASE e.k = "c" -> e.v
    [] e.k = "v" -> ps[e.j]
    [] e.k = "neg" -> FltNeg(PkExp(e.a, ps))
    [] e.k = "+" -> FltAdd(PkExp(e.a, ps), PkExp(e.b, ps))
    [] e.k = "-" -> FltAdd(PkExp(e.a, ps), FltNeg(PkExp(e.b, ps)))
    [] e.k = "*" -> FltMul(PkExp(e.a, ps), PkExp(e.b, ps))
    [] e.k = "/" -> FltMul(PkExp(e.a, ps), FltInv(PkExp(e.b, ps)))
    [] OTHER -> Bad
RECURSIVE BitsVal(_)
BitsVal(bs) == IF bs = <<>> THEN 0 ELSE (IF IsTrue(Head(bs)) THEN 1 ELSE 0) + 2 * BitsVal(Tail(bs))
BitsOf(n, w) == [k \in 1..w |-> B((n \div TwoTo(k - 1)) % 2)]
RECURSIVE ClVal(_, _)
ClVal(e, bs) ==
  IF e.k = "i" THEN e.n
  ELSE IF e.k = "b" THEN BitsVal(<<bs[e.p]>>)
  ELSE IF e.k = "r" THEN BitsVal([k \in 1..Len(e.p) |-> bs[e.p[k]]])
  ELSE LET x == [k \in 1..Len(e.xs) |-> ClVal(e.xs[k], bs)]
           t(p) == IF p THEN 1 ELSE 0
       IN CASE e.op = "BitNot" -> 1 - x[1]
            [] e.op \in {"BitZero", "RegZero"} -> 0
            [] e.op = "BitOne" -> 1
            [] e.op \in {"BitAnd", "RegAnd"} -> FoldLeft(LAMBDA a, y : BitOp("iand", a, y, 12), 4095, x)
            [] e.op \in {"BitOr", "RegOr"} -> FoldLeft(LAMBDA a, y : BitOp("ior", a, y, 12), 0, x)
            [] e.op \in {"BitXor", "RegXor"} -> FoldLeft(LAMBDA a, y : BitOp("ixor", a, y, 12), 0, x)
            [] e.op \in {"BitEq", "RegEq"} -> t(x[1] = x[2])
            [] e.op \in {"BitNeq", "RegNeq"} -> t(x[1] # x[2])
            [] e.op = "RegLt" -> t(x[1] < x[2])
            [] e.op = "RegGt" -> t(x[1] > x[2])
            [] e.op = "RegLeq" -> t(x[1] <= x[2])
            [] e.op = "RegGeq" -> t(x[1] >= x[2])
            [] e.op = "RegAdd" -> x[1] + x[2]
            [] e.op = "RegSub" -> (x[1] - x[2]) % 4096
            [] e.op = "RegMul" -> x[1] * x[2]
            [] OTHER -> 0
Put(bs, pos, vs) == [k \in 1..Len(bs) |-> IF \E j \in 1..Len(pos) : pos[j] = k THEN vs[CHOOSE j \in 1..Len(pos) : pos[j] = k] ELSE bs[k]]
RECURSIVE PkRun(_, _, _, _, _)
PkRun(b, op, qs, bs, ps) ==
  LET n == Len(bs)
      t == op.t
      same(c) == <<<<c, bs>>>>
      ang == [k \in 1..Len(op.p) |-> PkExp(op.p[k], ps)]
      gate(g, ts) == same(Emit(b, g, ts, qs))
  IN CASE t = "Barrier" -> same(b)
       [] t = "Measure" -> IF b.cs # <<>> \/ ~Real(b, qs[1]) THEN <<>>
                           ELSE MeasSplit(b, qs[1], LAMBDA c, o : <<<<c, <<B(o)>>>>>>, FALSE)
       [] t = "Collapse" -> MeasSplit(b, qs[1], LAMBDA c, o : same(c), FALSE)
       [] t = "Reset" -> ResetSplit(b, qs[1], LAMBDA c, o : same(c))
       [] t = "SetBits" -> <<<<b, [k \in 1..n |-> B(op.v[k])]>>>>
       [] t = "CopyBits" -> <<<<b, [k \in 1..n |-> IF k > op.n THEN bs[k - op.n] ELSE bs[k]]>>>>
       [] t = "RangePredicate" -> LET x == BitsVal(SubSeq(bs, 1, op.n)) IN <<<<b, [bs EXCEPT ![op.n + 1] = BoolV(x >= op.v[1] /\ x <= op.v[2])]>>>>
       [] t = "ExplicitPredicate" -> <<<<b, [bs EXCEPT ![op.n + 1] = B(op.v[BitsVal(SubSeq(bs, 1, op.n)) + 1])]>>>>
       [] t = "ExplicitModifier" -> <<<<b, [bs EXCEPT ![op.n + 1] = B(op.v[BitsVal(bs) + 1])]>>>>
       [] t = "ClassicalTransform" -> <<<<b, BitsOf(op.v[BitsVal(bs) + 1], n)>>>>
       [] t = "ClExpr" -> <<<<b, Put(bs, op.v, BitsOf(ClVal(op.e, bs), Len(op.v)))>>>>
       [] t = "Conditional" -> IF BitsVal(SubSeq(bs, 1, op.n)) # op.v[1] THEN same(b)
                               ELSE LET r == PkRun(b, op.op, qs, SubSeq(bs, op.n + 1, n), ps)
                                    IN [k \in 1..Len(r) |-> <<r[k][1], SubSeq(bs, 1, op.n) \o r[k][2]>>]
       [] t \in GateKnown \ {"Opaque"} -> gate(t, [k \in 1..Len(ang) |-> Ang(ang[k])])
       \* any other operation: some unitary determined by the operation and the sum of its parameters
       [] OTHER -> gate("Opaque", <<(op.h + FoldLeft(LAMBDA a, y : a + 3 * Ang(y), 0, ang) + 5 * BitsVal(bs)) % 1000>>)
\* all angles on the grid of the model
RECURSIVE PkOk(_, _)
PkOk(op, ps) == (\A k \in 1..Len(op.p) : AngOk(PkExp(op.p[k], ps), 0)) /\ (op.t = "Conditional" => PkOk(op.op, ps))
PkOp(b, in) ==
  LET xs == GetAll(b, in.i)
      qs == SubSeq(xs, 1, in.nq)
      bs == SubSeq(xs, in.nq + 1, in.nq + in.nb)
      ps == SubSeq(xs, in.nq + in.nb + 1, Len(xs))
      op == in.a[1]
  IN IF ~AllLive(b, qs) THEN Fault(b, "dead qubit")
     ELSE IF ~Distinct(qs) THEN Fault(b, "aliased qubits")
     ELSE IF ~PkOk(op, ps) THEN Unsup(b, in)
     ELSE LET r == PkRun(b, op, qs, bs, ps) IN
          IF b.cs # <<>> \/ b.tp # <<>> THEN Unsup(b, in)
          ELSE [k \in 1..Len(r) |-> Ret(r[k][1], in, qs \o r[k][2])]

-----------------------------------------------------------------------------
(* Pseudo-random numbers: draws of a branch are numbered in the order they happen; a draw is a fixed function of its number *)
(* and of its bound.  Every call is recorded.                                                                                *)
RndKinds == {"random_seed", "random_int", "random_float", "random_rng", "random_advance"}
Draw(b) == ((Cardinality({k \in 1..Len(b.res) : b.res[k][1] \in RndKinds}) + 1) * 37 + 11) % 100
RndRec(b, kind, n) == [b EXCEPT !.res = Append(@, <<kind, "", <<"i", n>>>>)]
RndOp(b, in, g) ==
  LET xs == GetAll(b, in.i) IN
  CASE g = "NewRNGContext" -> One(RndRec(b, "random_seed", xs[1][2]), in, <<<<"s", 1, <<<<"s", 0, <<>>>>>>>>>>)
    [] g = "RandomInt" -> One(RndRec(b, "random_int", 0), in, <<<<"i", Draw(b)>>, xs[1]>>)
    [] g = "RandomFloat" -> One(RndRec(b, "random_float", 0), in, <<<<"f", 2 * Draw(b) + 1, 128, 0>>, xs[1]>>)
    [] g = "RandomIntBounded" -> One(RndRec(b, "random_rng", xs[2][2]), in, <<<<"i", Draw(b) % xs[2][2]>>, xs[1]>>)
    [] g = "RandomAdvance" -> One(RndRec(b, "random_advance", xs[2][2]), in, <<xs[1]>>)
    [] g = "DeleteRNGContext" -> One(b, in, <<>>)
    [] OTHER -> Unsup(b, in)

(* External compute modules.  What is asked of them is recorded; contexts and calls are numbered in the order they happen; *)
(* an answer is a fixed function of the number of its call.  A module may be told (entry -2) to fail at a request.           *)
GpuKinds == {"gpu_init", "gpu_call", "gpu_result", "gpu_discard"}
GpuN(b, ks) == Cardinality({k \in 1..Len(b.res) : b.res[k][1] \in ks})
GpuVal(n, t) == IF t = "i" THEN <<"i", 100 + n>> ELSE <<"f", 2 * n + 1, 128, 0>>
GpuRec(b, in, kind, label, v, outs) ==
  LET c == [b EXCEPT !.res = Append(@, <<kind, label, v>>)] IN
  IF -2 \in DOMAIN b.futs THEN (IF b.futs[-2][1] = GpuN(b, GpuKinds) THEN End(c, <<"panic", <<69002, b.futs[-2][2]>>, c.res>>) ELSE One(c, in, outs))
  ELSE One(c, in, outs)
GpuOp(b, in, g) ==
  LET xs == GetAll(b, in.i) IN
  CASE g \in {"lookup_by_id", "lookup_by_name"} -> One(b, in, <<<<"err", 0, in.a[1]>>>>)
    [] g = "get_context" -> GpuRec(b, in, "gpu_init", "", xs[1], <<OptSome(<<<<"i", GpuN(b, {"gpu_init"}) + 1>>>>)>>)
    [] g = "call" -> GpuRec(b, in, "gpu_call", xs[2][3] \o " " \o in.a[1], <<"arr", <<xs[1]>> \o SubSeq(xs, 3, Len(xs))>>,
                            <<<<"s", 0, <<xs[1], <<"i", GpuN(b, {"gpu_call"}) + 1>>>>>>>>)
    [] g = "read_result" -> IF in.a[1] = "v" THEN One(b, in, <<xs[1][3][1]>>)
                            ELSE GpuRec(b, in, "gpu_result", "", xs[1][3][1], <<xs[1][3][1], GpuVal(xs[1][3][2][2], in.a[1])>>)
    [] g = "dispose_context" -> GpuRec(b, in, "gpu_discard", "", xs[1], <<>>)
    [] OTHER -> Unsup(b, in)

(* Calls of the machine code into the quantum runtime.  Handles of deferred measurements are counted references; the       *)
(* entry 0 among them stands for the time between set-up and tear-down, outside of which no call is allowed.  A qubit that  *)
(* has just been handed out is in no particular state (here: 1), until it is reset.  Memory handed out is noted in vq.      *)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
PrintKind == [print_bool |-> <<"USER:BOOL:", "result_bool">>, print_int |-> <<"USER:INT:", "result_int">>,
              print_uint |-> <<"USER:INT:", "result_uint">>, print_float |-> <<"USER:FLOAT:", "result_f64">>,
              print_bool_arr |-> <<"USER:BOOLARR:", "result_array_bool">>, print_int_arr |-> <<"USER:INTARR:", "result_array_int">>,
              print_uint_arr |-> <<"USER:INTARR:", "result_array_uint">>, print_float_arr |-> <<"USER:FLOATARR:", "result_array_f64">>]
RtOp(b, in, g) ==
  LET xs == GetAll(b, in.i)
      a == in.a
      id == a[1]
      live == id \in DOMAIN b.futs
      lazy(c, kind, o) == One([c EXCEPT !.futs = (id :> <<1, kind>>) @@ @], in, <<B(o)>>)
  IN IF g \notin {"setup", "end", "gfail"} /\ 0 \notin DOMAIN b.futs THEN Fault(b, "call outside of set-up and tear-down")
     ELSE IF ~AllLive(b, xs) THEN Fault(b, "qubit used while not allocated")
     ELSE IF ~Distinct(xs) THEN Fault(b, "a qubit twice in a gate")
     ELSE CASE g = "setup" -> IF 0 \in DOMAIN b.futs THEN Fault(b, "set up twice")
                              ELSE IF a[1] # 7 THEN Fault(b, "time not passed to set-up")
                              ELSE One([b EXCEPT !.futs = (0 :> <<1, "time">>) @@ @], in, <<>>)
            [] g = "teardown" -> One(DelFut(b, 0), in, <<>>)
            [] g = "end" -> IF a[1] # 9 THEN Fault(b, "time of tear-down not returned") ELSE One(b, in, <<>>)
            [] g = "qalloc" -> One(App(NewQ(b), <<"q", b.nid>>, MX, MX, <<>>), in, <<<<"q", b.nid>>>>)
            [] g = "qfree" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<>>), TRUE)
            [] g = "reset" -> ResetSplit(b, xs[1], LAMBDA c, o : One(c, in, <<>>))
            [] g = "rz" -> IF ~AngOk(a[1], 1) THEN Fault(b, "unexpected angle") ELSE DoGate(b, in, "Rz", <<Ang(a[1])>>, xs)
            [] g = "rxy" -> IF ~AngOk(a[1], 1) \/ ~AngOk(a[2], 1) THEN Fault(b, "unexpected angle")
                            ELSE DoGate(b, in, "PhasedX", <<Ang(a[1]), Ang(a[2])>>, xs)
            [] g = "rzz" -> IF ~AngOk(a[1], 1) THEN Fault(b, "unexpected angle") ELSE DoGate(b, in, "ZZPhase", <<Ang(a[1])>>, xs)
            [] g = "measure" -> MeasSplit(b, xs[1], LAMBDA c, o : One(c, in, <<B(o)>>), FALSE)
            [] g = "lazy_measure" -> MeasSplit(b, xs[1], LAMBDA c, o : lazy(c, "bool", o), FALSE)
            [] g = "lazy_measure_leaked" -> MeasSplit(b, xs[1], LAMBDA c, o : lazy(c, "uint", o), FALSE)
            [] g \in {"read_bool", "read_uint"} ->
                 IF ~live \/ id = 0 THEN Fault(b, "deferred value read after release")
                 ELSE IF b.futs[id][2] # (IF g = "read_bool" THEN "bool" ELSE "uint") THEN Fault(b, "deferred value read as another type")
                 ELSE One(b, in, <<>>)
            [] g = "inc" -> IF ~live \/ id = 0 THEN Fault(b, "deferred value used after release")
                            ELSE One([b EXCEPT !.futs[id][1] = @ + 1], in, <<>>)
            [] g = "dec" -> IF ~live \/ id = 0 THEN Fault(b, "deferred value released twice")
                            ELSE One(IF b.futs[id][1] = 1 THEN DelFut(b, id) ELSE [b EXCEPT !.futs[id][1] = @ - 1], in, <<>>)
            [] g = "heap_alloc" -> One([b EXCEPT !.vq = @ \cup {-id}], in, <<>>)
            [] g = "heap_free" -> IF -id \in b.vq THEN One([b EXCEPT !.vq = @ \ {-id}], in, <<>>) ELSE Fault(b, "memory released twice")
            [] g = "gfail" -> One([b EXCEPT !.futs = (-2 :> <<a[1], a[2]>>) @@ @], in, <<>>)
            [] g = "gpu_validate" -> IF a # <<0, 1, 0>> THEN Fault(b, "external interface of another version") ELSE One([b EXCEPT !.vq = @ \cup {-1000000}], in, <<>>)
            [] g = "gpu_id" -> IF -1000000 \in b.vq THEN One(b, in, <<>>) ELSE Fault(b, "function of an external module looked up before validation")
            [] g = "gpu_init" -> IF -1000000 \in b.vq THEN GpuRec(b, in, g, "", a[1], <<>>) ELSE Fault(b, "external module used before validation")
            [] g \in {"gpu_result", "gpu_discard"} -> GpuRec(b, in, g, "", a[1], <<>>)
            [] g = "gpu_call" -> GpuRec(b, in, g, a[1], a[2], <<>>)
            [] g \in RndKinds -> One(RndRec(b, g, a[1]), in, <<>>)
            [] g \in DOMAIN PrintKind -> LET k == PrintKind[g] IN
                 IF ~HasPrefix(a[1], k[1]) THEN Fault(b, "result without its type in the tag")
                 ELSE One([b EXCEPT !.res = Append(@, <<k[2], SubSeq(a[1], Len(k[1]) + 1, Len(a[1])), a[2]>>)], in, <<>>)
            [] g = "panic" -> LET t == IF HasPrefix(a[2], "EXIT:INT:") THEN SubSeq(a[2], 10, Len(a[2])) ELSE a[2] IN
                 IF a[1] > 1000 THEN End(b, <<"panic", <<a[1] - 1000, t>>, b.res>>) ELSE End(b, <<"exit", <<a[1], t>>, b.res>>)
            [] OTHER -> Unsup(b, in)

RECURSIVE FutIn(_)
FutInAll(vs) == UNION {FutIn(vs[k]) : k \in 1..Len(vs)}
FutIn(v) == CASE v[1] = "fut" -> {v[2]} [] v[1] = "arr" -> FutInAll(v[2]) [] v[1] = "s" -> FutInAll(v[3]) [] OTHER -> {}

-----------------------------------------------------------------------------
(* One instruction.  G: regions, b: branch.  Result: sequence of successor branches. *)
Enter(b, r, vs, G) == [b EXCEPT !.stk = Append(@, [r |-> r, pc |-> 1, call |-> FALSE, sv |-> NoEnv, blk |-> 1]),
                              !.env = BindAll(@, G[r].i, vs)]
EnterCall(b, r, vs, G) == [b EXCEPT !.stk = Append(@, [r |-> r, pc |-> 1, call |-> TRUE, sv |-> b.env, blk |-> 1]),
                              !.env = BindAll(NoEnv, G[r].i, vs)]
ErrKey(e) == IF e[1] = "err" THEN <<e[2], e[3]>> ELSE <<e>>

PlainOp(b, in) ==
  LET xs == GetAll(b, in.i) o == in.op IN
  CASE in.f = "q" -> QOp(b, in, in.n)
    [] in.f = "sys" -> SysOp(b, in, in.n)
    [] in.f = "int" -> IntOp(b, in)
    [] in.f = "float" -> FloatOp(b, in)
    [] in.f = "arr" -> ArrOp(b, in, in.n)
    [] in.f = "fut" -> FutOp(b, in, in.n)
    [] in.f = "unk" -> UninterpOp(b, in)
    [] in.f = "pk" -> PkOp(b, in)
    [] in.f = "rnd" -> RndOp(b, in, in.n)
    [] o = "tket.qsystem.utils.GetCurrentShot" -> One(b, in, <<<<"i", 5>>>>)
    [] in.f = "gpu" -> GpuOp(b, in, in.n)
    [] in.f = "rt" -> RtOp(b, in, in.n)
    [] o = "pytket.param" -> LET r == PkExp(in.a[1], xs) IN IF IsF(r) THEN One(b, in, <<r>>) ELSE Unsup(b, in)
    [] o = "const" -> One(b, in, <<in.a[1]>>)
    [] o = "tag" -> One(b, in, <<<<"s", in.a[1], xs>>>>)
    [] o = "prelude.MakeTuple" -> One(b, in, <<<<"s", 0, xs>>>>)
    [] o = "prelude.UnpackTuple" -> One(b, in, xs[1][3])
    [] o = "prelude.Barrier" -> One(Bar(b, "src", xs), in, xs)
    [] o \in {"prelude.Noop", "tket.debug.StateResult"} -> One(b, in, xs)
    [] o = "prelude.load_nat" -> One(b, in, <<<<"i", in.a[1]>>>>)
    [] o = "prelude.panic" -> End(b, <<"panic", ErrKey(xs[1]), b.res>>)
    [] o = "prelude.exit" -> End(b, <<"exit", ErrKey(xs[1]), b.res>>)
    [] o = "prelude.MakeError" -> One(b, in, <<<<"err", xs[1][2], xs[2][2]>>>>)
    [] o = "prelude.print" -> One([b EXCEPT !.res = Append(@, <<"print", xs[1]>>)], in, <<>>)
    [] o = "tket.bool.read" -> One(b, in, <<xs[1]>>)
    [] o = "tket.bool.make_opaque" -> One(b, in, <<xs[1]>>)
    [] o \in {"tket.bool.not", "logic.Not"} -> One(b, in, <<BoolV(~IsTrue(xs[1]))>>)
    [] o \in {"tket.bool.and", "logic.And"} -> One(b, in, <<BoolV(\A k \in 1..Len(xs) : IsTrue(xs[k]))>>)
    [] o \in {"tket.bool.or", "logic.Or"} -> One(b, in, <<BoolV(\E k \in 1..Len(xs) : IsTrue(xs[k]))>>)
    [] o \in {"tket.bool.xor", "logic.Xor"} -> One(b, in, <<B(BitSum(xs) % 2)>>)
    [] o \in {"tket.bool.eq", "logic.Eq"} -> One(b, in, <<BoolV(\A k \in 1..Len(xs) : IsTrue(xs[k]) = IsTrue(xs[1]))>>)
    [] o = "tket.rotation.from_halfturns_unchecked" -> One(b, in, xs)
    [] o = "tket.rotation.from_halfturns" -> One(b, in, <<OptSome(xs)>>)
    [] o = "tket.rotation.to_halfturns" -> One(b, in, xs)
    [] o = "tket.rotation.radd" -> LET r == FltAdd(xs[1], xs[2]) IN IF IsF(r) THEN One(b, in, <<r>>) ELSE Unsup(b, in)
    [] o = "tket.global_phase.global_phase" ->
         IF b.cs = <<>> /\ b.tp = <<>> THEN One(b, in, <<>>)
         ELSE IF ~AngOk(xs[1], 0) THEN Unsup(b, in)
         ELSE One(Emit(b, "Phase", <<Ang(xs[1])>>, <<>>), in, <<>>)
    [] o = "tket.guppy.drop" -> LET fs == FutIn(xs[1]) IN
         IF fs \subseteq DOMAIN b.futs THEN One([b EXCEPT !.futs = [k \in (DOMAIN @) \ fs |-> @[k]]], in, <<>>)
         ELSE Fault(b, "deferred value used after release")
    [] o = "tket.quantum.symbolic_angle" -> One(b, in, <<in.a[1]>>)
    [] o \in {"arithmetic.conversions.convert_s", "arithmetic.conversions.convert_u"} -> One(b, in, <<Rat(xs[1][2], 1, 0)>>)
    [] o \in {"arithmetic.conversions.trunc_s", "arithmetic.conversions.trunc_u"} ->
         IF xs[1][4] # 0 THEN Unsup(b, in)
         ELSE LET n == IF xs[1][2] >= 0 THEN xs[1][2] \div xs[1][3] ELSE -((-xs[1][2]) \div xs[1][3])
              IN One(b, in, <<IF n < 0 /\ o = "arithmetic.conversions.trunc_u" THEN <<"s", 0, <<<<"err", 0, "">>>>>> ELSE <<"s", 1, <<<<"i", n>>>>>>>>)
    [] o = "arithmetic.conversions.itobool" -> One(b, in, <<B(xs[1][2] % 2)>>)
    [] o = "arithmetic.conversions.ifrombool" -> One(b, in, <<<<"i", xs[1][2]>>>>)
    [] o \in {"arithmetic.conversions.itousize", "arithmetic.conversions.ifromusize"} -> One(b, in, xs)
    [] o = "collections.static_array.get" -> One(b, in, <<IF xs[2][2] < Len(xs[1][2]) THEN OptSome(<<xs[1][2][xs[2][2] + 1]>>) ELSE <<"s", 0, <<>>>>>>)
    [] o = "collections.static_array.len" -> One(b, in, <<<<"i", Len(xs[1][2])>>>>)
    [] in.f = "res" -> One([b EXCEPT !.res = Append(@, <<in.n, in.a[1], xs[1]>>)], in, <<>>)
    [] OTHER -> Unsup(b, in)

\* Modified functions: <<"fn", region, modifications, innermost first>>, a modification being <<"c", n>> (controlled by an
\* array of n qubits, passed before the other arguments and returned before the other results) or <<"d">> (inverted).
FnMods(fv) == IF Len(fv) = 3 THEN fv[3] ELSE <<>>
Modify(fv, m) == <<"fn", fv[2], Append(FnMods(fv), m)>>
RECURSIVE RenameQ(_, _)
RenameAll(vs, f) == [k \in 1..Len(vs) |-> RenameQ(vs[k], f)]
RenameQ(v, f) == CASE v[1] = "q" -> <<"q", f[v[2]]>> [] v[1] = "arr" -> <<"arr", RenameAll(v[2], f)>>
                   [] v[1] = "s" -> <<"s", v[2], RenameAll(v[3], f)>> [] OTHER -> v
\* qubits in a value, left to right
RECURSIVE QIn(_)
QInAll(vs) == FoldLeft(LAMBDA acc, v : acc \o QIn(v), <<>>, vs)
QIn(v) == CASE v[1] = "q" -> <<v[2]>> [] v[1] = "arr" -> QInAll(v[2]) [] v[1] = "s" -> QInAll(v[3]) [] OTHER -> <<>>
AsQ(ids) == [k \in 1..Len(ids) |-> <<"q", ids[k]>>]
\* Controls first.  An inverted function runs on stand-ins for the qubits it will return.
CallMod(b, fv, vs, G) ==
  LET ms == FnMods(fv)
      nc == Cardinality({k \in 1..Len(ms) : ms[k][1] = "c"})
      inv == Cardinality({k \in 1..Len(ms) : ms[k][1] = "d"}) % 2 = 1
      arrs == SubSeq(vs, 1, nc)
      args == SubSeq(vs, nc + 1, Len(vs))
      ctl == AsQ(QInAll(arrs))
      c == [b EXCEPT !.cs = @ \o ctl]
      md == [arrs |-> arrs, cs |-> b.cs, inv |-> inv]
  IN IF \E k \in 1..Len(ctl) : ~Live(b, ctl[k]) THEN Fault(b, "dead control qubit")
     ELSE IF ~inv THEN <<[EnterCall(c, fv[2], args, G) EXCEPT !.stk[Len(b.stk) + 1] = [md |-> md] @@ @]>>
     ELSE LET n == Len(G[fv[2]].o)          \* the first n arguments have the types of the results
              qs == QInAll(SubSeq(args, 1, n))
              st == [k \in 1..Len(qs) |-> b.nid + k - 1]
              f == [q \in {qs[k] : k \in 1..Len(qs)} |-> st[CHOOSE k \in 1..Len(qs) : qs[k] = q]]
              virt == RenameAll(SubSeq(args, 1, n), f)
              e == [c EXCEPT !.vq = @ \cup {st[k] : k \in 1..Len(st)}, !.nid = @ + Len(qs), !.tp = Append(@, <<>>), !.cs = <<>>]
          IN <<[EnterCall(e, fv[2], virt \o SubSeq(args, n + 1, Len(args)), G) EXCEPT
                  !.stk[Len(b.stk) + 1] = [md |-> [qs |-> qs, st |-> st, virt |-> virt, cs2 |-> c.cs] @@ md] @@ @]>>
\* undo a recording, gate by gate from its end, with f telling which qubits the stand-ins turn out to be
RECURSIVE Undo(_, _, _)
Undo(b, tape, f) ==
  IF tape = <<>> THEN b
  ELSE LET g == Last(tape)
           re(xs) == [k \in 1..Len(xs) |-> <<"q", f[xs[k][2]]>>]
           old == b.cs
           ts == IF g[1] \in Turns THEN [k \in 1..Len(g[2]) |-> -g[2][k]] ELSE g[2]
       IN Undo([Emit([b EXCEPT !.cs = @ \o re(g[4])], InvName(g[1]), ts, re(g[3])) EXCEPT !.cs = old], SubSeq(tape, 1, Len(tape) - 1), f)
\* the modified call on top of the stack returns vs
RetMod(c, in, vs, md) ==
  IF ~md.inv THEN One([c EXCEPT !.cs = md.cs], in, md.arrs \o vs)
  ELSE LET tape == c.tp[Len(c.tp)]
           d == [c EXCEPT !.tp = SubSeq(@, 1, Len(@) - 1), !.vq = @ \ {md.st[k] : k \in 1..Len(md.st)}, !.cs = md.cs2]
           out == QInAll(vs)
       IN IF Len(out) # Len(md.st) \/ {out[k] : k \in 1..Len(out)} # {md.st[k] : k \in 1..Len(md.st)} THEN Fault(d, "inverse of a function that changes its qubits")
          ELSE IF \E k \in 1..Len(tape) : ~Invertible(tape[k][1]) THEN Unsup(d, [op |-> "inverse"])
          ELSE LET f == [s \in {md.st[k] : k \in 1..Len(md.st)} |-> md.qs[CHOOSE k \in 1..Len(out) : out[k] = s]]
                   u == Undo(d, tape, f)
                   res == [k \in 1..Len(vs) |-> IF QIn(md.virt[k]) = <<>> THEN vs[k] ELSE RenameQ(md.virt[k], f)]
               IN One([u EXCEPT !.cs = md.cs], in, md.arrs \o res)

\* repeat / scan call a function value once per element; they are unrolled by keeping the partial array in the activation
\* Iterated calls keep their state in the activation: tl = elements (or rounds) to go, acc = elements done, fv = the function
EnterIter(b, fv, vs, tl, acc, G) ==
  [EnterCall(b, fv[2], vs, G) EXCEPT !.stk[Len(b.stk) + 1] = [tl |-> tl, acc |-> acc, fv |-> fv] @@ @]
Iter(b, in, G) ==
  LET xs == GetAll(b, in.i) IN
  IF in.n = "repeat" THEN
     IF xs[1][1] # "fn" \/ xs[1][2] = 0 \/ FnMods(xs[1]) # <<>> THEN Unsup(b, in)
     ELSE IF in.a[1] = 0 THEN One(b, in, <<<<"arr", <<>>>>>>)
     ELSE <<EnterIter(b, xs[1], <<>>, [k \in 1..(in.a[1] - 1) |-> Unit], <<>>, G)>>
  ELSE IF xs[2][1] # "fn" \/ xs[2][2] = 0 \/ FnMods(xs[2]) # <<>> THEN Unsup(b, in)
     ELSE IF \E k \in 1..Len(xs[1][2]) : xs[1][2][k] = <<"hole">> THEN End(b, <<"panic", "borrowed", b.res>>)
     ELSE IF Len(xs[1][2]) = 0 THEN One(b, in, <<<<"arr", <<>>>>>> \o SubSeq(xs, 3, Len(xs)))
     ELSE <<EnterIter(b, xs[2], <<Head(xs[1][2])>> \o SubSeq(xs, 3, Len(xs)), Tail(xs[1][2]), <<>>, G)>>

Exec(b, in, G) ==
  CASE in.op = "dfg" -> <<Enter(b, in.r[1], GetAll(b, in.i), G)>>
    [] in.op = "cond" -> LET xs == GetAll(b, in.i) IN
                         <<Enter(b, in.r[xs[1][2] + 1], xs[1][3] \o Tail(xs), G)>>
    [] in.op = "loop" -> <<Enter(b, in.r[1], GetAll(b, in.i), G)>>
    [] in.op = "cfg" -> <<Enter(b, in.r[1], GetAll(b, in.i), G)>>
    [] in.op = "call" -> IF in.r[1] = 0 THEN Unsup(b, in) ELSE <<EnterCall(b, in.r[1], GetAll(b, in.i), G)>>
    [] in.op = "loadfn" -> One(b, in, <<<<"fn", in.r[1]>>>>)
    [] in.op = "callind" -> LET xs == GetAll(b, in.i) IN
                         IF xs[1][1] # "fn" \/ xs[1][2] = 0 THEN Unsup(b, in)
                         ELSE IF FnMods(xs[1]) # <<>> THEN CallMod(b, xs[1], Tail(xs), G)
                         ELSE <<EnterCall(b, xs[1][2], Tail(xs), G)>>
    [] in.op = "tket.modifier.ControlModifier" -> One(b, in, <<Modify(Get(b, in.i[1]), <<"c", in.a[1]>>)>>)
    [] in.op = "tket.modifier.DaggerModifier" -> One(b, in, <<Modify(Get(b, in.i[1]), <<"d">>)>>)
    [] in.f = "arr" /\ in.n \in {"repeat", "scan"} -> Iter(b, in, G)
    [] OTHER -> PlainOp(b, in)

\* the region on top of the stack has run all its instructions
Finish(b, G) ==
  LET n == Len(b.stk)
      top == b.stk[n]
      vs == GetAll(b, G[top.r].o)
      below == SubSeq(b.stk, 1, n - 1)
  IN IF n = 1 THEN <<[b EXCEPT !.fin = <<"ret", vs>>, !.stk = <<>>, !.env = NoEnv]>>
     ELSE LET par == b.stk[n - 1]
              in == G[par.r].b[par.pc]
              c == IF top.call THEN [b EXCEPT !.stk = below, !.env = top.sv] ELSE [b EXCEPT !.stk = below]
          IN CASE "md" \in DOMAIN top -> RetMod(c, in, vs, top.md)
               [] in.op \in {"dfg", "cond", "call", "callind"} -> One(c, in, vs)
               [] in.op = "loop" -> IF vs[1][2] = 0
                    THEN <<Enter(c, in.r[1], vs[1][3] \o Tail(vs), G)>>          \* continue
                    ELSE One(c, in, vs[1][3] \o Tail(vs))                        \* break
               [] in.op = "cfg" ->
                    LET t == in.s[top.blk][vs[1][2] + 1]
                        ws == vs[1][3] \o Tail(vs)
                    IN IF t = 0 THEN One(c, in, ws)
                       ELSE <<[Enter(c, in.r[t], ws, G) EXCEPT !.stk[n].blk = t]>>
               [] in.f = "arr" ->
                    LET acc == Append(top.acc, Head(vs)) IN
                    IF top.tl = <<>> THEN One(c, in, <<<<"arr", acc>>>> \o Tail(vs))
                    ELSE <<EnterIter(c, top.fv, (IF in.n = "repeat" THEN <<>> ELSE <<Head(top.tl)>>) \o Tail(vs), Tail(top.tl), acc, G)>>
               [] OTHER -> Unsup(c, in)

Step(b, G) ==
  LET top == b.stk[Len(b.stk)] body == G[top.r].b IN
  IF top.pc <= Len(body) THEN Exec(b, body[top.pc], G) ELSE Finish(b, G)

-----------------------------------------------------------------------------
(* Starting and observing *)
\* input values with <<"q">> standing for a fresh qubit: names are given left to right
RECURSIVE NameQ(_, _)
NameQs(vs, n) == FoldLeft(LAMBDA acc, v : LET r == NameQ(v, acc[2]) IN <<Append(acc[1], r[1]), r[2]>>, <<<<>>, n>>, vs)
NameQ(v, n) ==
  CASE v[1] = "q" -> <<<<"q", n>>, n + 1>>
    [] v[1] = "arr" -> LET r == NameQs(v[2], n) IN <<<<"arr", r[1]>>, r[2]>>
    [] v[1] = "s" -> LET r == NameQs(v[3], n) IN <<<<"s", v[2], r[1]>>, r[2]>>
    [] OTHER -> <<v, n>>

StartBranch(G, main, inputs) ==
  LET r == NameQs(inputs, 1)
      nq == r[2] - 1
  IN [env |-> BindAll(NoEnv, G[main].i, r[1]),
      stk |-> <<[r |-> main, pc |-> 1, call |-> FALSE, sv |-> NoEnv, blk |-> 1]>>,
      q |-> [k \in 1..nq |-> k],
      u |-> [i \in 1..P2(nq) |-> Rnd(1, i)], v |-> [i \in 1..P2(nq) |-> Rnd(2, i)],
      nid |-> nq + 1, futs |-> NoEnv, res |-> <<>>, bar |-> <<>>, gc |-> NoEnv, fin |-> <<>>,
      cs |-> <<>>, tp |-> <<>>, vq |-> {}]

\* the value with qubits anonymised
RECURSIVE Skel(_, _)
\* b supplies deferred outcomes
Skel(v, b) ==
  CASE v[1] = "q" -> <<"q">>
    [] v[1] = "arr" -> <<"arr", [k \in 1..Len(v[2]) |-> Skel(v[2][k], b)]>>
    [] v[1] = "fut" -> IF v[2] \in DOMAIN b.futs THEN b.futs[v[2]] ELSE <<"dangling">>
    [] v[1] = "s" -> <<"s", v[2], [k \in 1..Len(v[3]) |-> Skel(v[3][k], b)]>>
    [] v[1] = "fn" -> <<"fn">>
    [] OTHER -> v
\* opaque booleans after lowering: read through
RECURSIVE Bit1(_, _)
Bit1(v, b) ==
  IF v[1] = "arr" THEN <<"arr", [k \in 1..Len(v[2]) |-> Bit1(v[2][k], b)]>>
  ELSE LET s == Skel(v, b) IN IF s[1] = "s" /\ Len(s[3]) = 1 THEN s[3][1] ELSE s


\* bilinear functional number k (of three) of a finished branch, output qubits ids in order; the rest is traced out
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE (f[n] + SumTo(f, n - 1)) % P
OutIdx(i, ps) == LET w == [j \in 1..Len(ps) |-> Bit(i, ps[j]) * P2(j - 1)] IN 1 + SumTo(w, Len(ps))
RECURSIVE Func3(_, _)
Func3(b, ids) ==
  LET leak == SelectSeq(b.q, LAMBDA x : \A k \in 1..Len(ids) : ids[k] # x) IN
  IF leak # <<>>
  THEN LET x == <<"q", leak[1]>> f0 == Func3(Cut(b, x, 0), ids) f1 == Func3(Cut(b, x, 1), ids)
       IN [k \in 1..3 |-> (f0[k] + f1[k]) % P]
  ELSE LET ps == [k \in 1..Len(ids) |-> PosOf(b.q, ids[k])]
           n == Len(b.u)
           oi == TLCEval([i \in 1..n |-> OutIdx(i, ps)])
           F(k) == (SumTo([i \in 1..n |-> (b.u[i] * Rnd(2 * k + 1, oi[i])) % P], n)
                    * SumTo([i \in 1..n |-> (b.v[i] * Rnd(2 * k + 2, oi[i])) % P], n)) % P
       IN IF n = 1 THEN LET c == (b.u[1] * b.v[1]) % P IN <<c, c, c>>
          ELSE <<F(1), F(2), F(3)>>

\* kinds of the classical outputs: "b" = opaque boolean (may be in lowered form)
OutSkel(vs, b, kinds) == [k \in 1..Len(vs) |-> IF k <= Len(kinds) /\ kinds[k] = "b" THEN Bit1(vs[k], b) ELSE Skel(vs[k], b)]

SkelRes(b) == [k \in 1..Len(b.res) |-> [m \in 1..Len(b.res[k]) |->
                 IF m = 3 /\ b.res[k][1] # "ext" THEN Skel(b.res[k][m], b) ELSE b.res[k][m]]]
\* key and contribution of a finished branch
Observe(b, kinds) ==
  IF b.fin[1] = "ret" THEN
     LET vs == b.fin[2]
         ids == QInAll(vs)
         okq == \A k \in 1..Len(ids) : HasQ(b.q, ids[k]) /\ \A j \in 1..Len(ids) : j # k => ids[j] # ids[k]
         lost == {k \in (DOMAIN b.futs) \ FutInAll(vs) : k >= 0}
     IN IF ~okq THEN [key |-> <<"fault", "returned qubit is dead or duplicated">>, c |-> <<1, 1, 1>>]
        ELSE IF lost # {} THEN [key |-> <<"fault", "deferred value never read or released">>, c |-> <<1, 1, 1>>]
        ELSE [key |-> <<"ret", OutSkel(vs, b, kinds), SkelRes(b)>>, c |-> Func3(b, ids)]
  ELSE [key |-> b.fin, c |-> Func3(b, <<>>)]
=============================================================================
