------------------------------- MODULE QState -------------------------------
(* Pure states of n qubits as vectors over GF(P), together with their companion under the        *)
(* field automorphism zeta |-> 1/zeta.  A state is a record                                      *)
(*    [q   : sequence of the live qubit names; position j carries weight 2^(j-1),                *)
(*     u   : amplitudes with zeta,  v : amplitudes with 1/zeta].                                 *)
(* The pair (u, v) stands for the operator  |u><v^*| ; its evolution is the channel's, so sums    *)
(* over branches of bilinear functionals of (u, v) are linear functionals of the channel.        *)
EXTENDS Field

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
P2(n) == Pow2[n + 1]

PosOf(q, id) == CHOOSE j \in 1..Len(q) : q[j] = id
HasQ(q, id) == \E j \in 1..Len(q) : q[j] = id

\* bit of 1-based index i at qubit position j
Bit(i, j) == ((i - 1) \div P2(j - 1)) % 2

\* Matrices <<m00, m01, m10, m11>> come as a pair: (under zeta, under 1/zeta).
\* Apply a one-qubit matrix at position j, conditioned on all positions of the sequence cs being 1.
Ctl(i, cs) == \A k \in 1..Len(cs) : Bit(i, cs[k]) = 1
ApplyV(w, j, m, cs) ==
  TLCEval([i \in 1..Len(w) |->
     IF ~Ctl(i, cs) THEN w[i]
     ELSE IF Bit(i, j) = 0 THEN (m[1] * w[i] + ((m[2] * w[i + P2(j - 1)]) % P)) % P
     ELSE (((m[3] * w[i - P2(j - 1)]) % P) + m[4] * w[i]) % P])

\* diagonal phase: multiplies by ph where all of cs are 1
PhaseV(w, ph, cs) == TLCEval([i \in 1..Len(w) |-> IF Ctl(i, cs) THEN (ph * w[i]) % P ELSE w[i]])

SwapIdx(i, a, b) ==
  IF Bit(i, a) = Bit(i, b) THEN i
  ELSE IF Bit(i, a) = 1 THEN i - P2(a - 1) + P2(b - 1) ELSE i + P2(a - 1) - P2(b - 1)
SwapV(w, a, b) == TLCEval([i \in 1..Len(w) |-> w[SwapIdx(i, a, b)]])

AllocV(w) == TLCEval([i \in 1..(2 * Len(w)) |-> IF i <= Len(w) THEN w[i] ELSE 0])

\* keep the part where position j has value x, and drop that position
DropIdx(i, j, x) == LET lo == (i - 1) % P2(j - 1)
                        hi == (i - 1) \div P2(j - 1)
                    IN 1 + lo + x * P2(j - 1) + hi * P2(j)
CutV(w, j, x) == TLCEval([i \in 1..(Len(w) \div 2) |-> w[DropIdx(i, j, x)]])
\* keep the part where position j has value x, without dropping it
ProjV(w, j, x) == TLCEval([i \in 1..Len(w) |-> IF Bit(i, j) = x THEN w[i] ELSE 0])

IsZero(w) == \A i \in 1..Len(w) : w[i] = 0

-----------------------------------------------------------------------------
(* Gate matrices. Angles are given in units of 1/2048 half turn (radian angle = a * pi / 2048);  *)
(* e^{i*pi*a/2048 /2} = zeta^(2a') needs care: zeta = e^{2 pi i / 8192} = e^{i pi / 4096}, hence  *)
(* e^{i pi a / (2*2048)} = zeta^a.                                                                *)
\* s = 1 for zeta, -1 for the companion
II == ZPow(2048)                      \* i
IU(s) == ZPow(2048 * s)
MX == <<0, 1, 1, 0>>
MH == <<ISq2, ISq2, ISq2, FNeg(ISq2)>>
MY(s) == <<0, FNeg(IU(s)), IU(s), 0>>
MPh(k, s) == <<1, 0, 0, ZPow(k * s)>>                      \* diag(1, zeta^k)
MRz(a, s) == <<ZPow(-a * s), 0, 0, ZPow(a * s)>>
CosH(a, s) == ((ZPow(a * s) + ZPow(-a * s)) * Half) % P           \* cos(pi a/4096)
SinH(a, s) == (((FSub(ZPow(a * s), ZPow(-a * s)) * Half) % P) * ZPow(-2048 * s)) % P
MRx(a, s) == LET ms == FNeg((IU(s) * SinH(a, s)) % P) IN <<CosH(a, s), ms, ms, CosH(a, s)>>
MRy(a, s) == <<CosH(a, s), FNeg(SinH(a, s)), SinH(a, s), CosH(a, s)>>
MMul(x, y) ==
  << (((x[1] * y[1]) % P) + x[2] * y[3]) % P, (((x[1] * y[2]) % P) + x[2] * y[4]) % P,
     (((x[3] * y[1]) % P) + x[4] * y[3]) % P, (((x[3] * y[2]) % P) + x[4] * y[4]) % P >>
\* PhasedX(a, b) = Rz(b) Rx(a) Rz(-b)
MPhX(a, b, s) == MMul(MRz(b, s), MMul(MRx(a, s), MRz(-b, s)))
MTK1(a, b, c, s) == MMul(MRz(a, s), MMul(MRx(b, s), MRz(c, s)))
=============================================================================
