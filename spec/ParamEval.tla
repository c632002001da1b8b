------------------------------ MODULE ParamEval ------------------------------
(* Parameter arithmetic (C23).  A case is one value written down twice: `lhs` and `rhs` are straight-line programs        *)
(* (sequences of tokens, evaluated on a stack) - one from the text of a gate parameter, the other from the dataflow        *)
(* graph the real code has built for it or had been given.  Both are run in the field GF(40961) under several assignments  *)
(* of the symbols.  Sums, products, quotients and signs are exact there; powers, extrema, roundings and unknown functions  *)
(* are unspecified functions of their arguments' values, so equal results mean equal arithmetic.                           *)
EXTENDS Field, FiniteSets, SequencesExt, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Cases == Data.cases
Runs == 3
VARIABLES c, run, side, pc, stack, res, verdict
vars == <<c, run, side, pc, stack, res, verdict>>
Case == Cases[c]
Prog == IF side = 1 THEN Case.lhs ELSE Case.rhs

RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 1 ELSE LET h == FPow(FMul(a, a), n \div 2) IN IF n % 2 = 1 THEN FMul(a, h) ELSE h
Inv(a) == FPow(a, P - 2)
Pi == 27182
Var(k) == (k * 9157 + run * 13007 + k * run * 211 + 5) % P
Mix(s, x, y) == LET t == FAdd(FMul(x, (7919 + s) % P), FAdd(FMul(y, (20047 + 3 * s) % P), FMul(x, FMul(y, (31 + s) % P)))) IN FAdd(FMul(t, FMul(t, t)), s)
Salt == [pow |-> 11, max |-> 23, min |-> 37, abs |-> 41, floor |-> 53, ceil |-> 67, round |-> 79]
Top(k) == stack[Len(stack) + 1 - k]
Drop(k) == SubSeq(stack, 1, Len(stack) - k)
Arity(t) == CASE t.k \in {"n", "v", "pi", "u"} -> 0
              [] t.k \in {"neg", "abs", "floor", "ceil", "round"} -> 1
              [] OTHER -> 2
Value(t) ==
  CASE t.k = "n" -> FMul(t.n % P, Inv(t.d % P))
    [] t.k = "v" -> Var(t.j)
    [] t.k = "pi" -> Pi
    [] t.k = "u" -> Mix((97 + t.h) % P, run, t.h % P)      \* an expression kept as text
    [] t.k = "neg" -> FNeg(Top(1))
    [] t.k = "add" -> FAdd(Top(2), Top(1))
    [] t.k = "sub" -> FSub(Top(2), Top(1))
    [] t.k = "mul" -> FMul(Top(2), Top(1))
    [] t.k = "div" -> FMul(Top(2), Inv(Top(1)))
    [] t.k \in {"pow", "max", "min"} -> Mix(Salt[t.k], Top(2), Top(1))
    [] OTHER -> Mix(Salt[t.k], Top(1), 1)

Say(v, d) == PrintT("VERDICT " \o ToJson([id |-> Case.id, x |-> run, side |-> 2, v |-> v, steps |-> pc, detail |-> d]))
Init == c \in 1..Len(Cases) /\ run = 1 /\ side = 1 /\ pc = 1 /\ stack = <<>> /\ res = 0 /\ verdict = ""
Broken == /\ verdict = "" /\ "bad" \in DOMAIN Case /\ verdict' = "bad" /\ Say("bad", Case.bad) /\ UNCHANGED <<c, run, side, pc, stack, res>>
Step == /\ verdict = "" /\ "bad" \notin DOMAIN Case /\ pc <= Len(Prog) /\ Arity(Prog[pc]) <= Len(stack)
        /\ stack' = Append(Drop(Arity(Prog[pc])), Value(Prog[pc])) /\ pc' = pc + 1 /\ UNCHANGED <<c, run, side, res, verdict>>
Switch == /\ verdict = "" /\ pc > Len(Prog) /\ side = 1 /\ Len(stack) = 1 /\ "bad" \notin DOMAIN Case
          /\ res' = stack[1] /\ side' = 2 /\ pc' = 1 /\ stack' = <<>> /\ UNCHANGED <<c, run, verdict>>
Agree == /\ verdict = "" /\ pc > Len(Prog) /\ side = 2 /\ Len(stack) = 1 /\ stack[1] = res
         /\ IF run < Runs THEN /\ run' = run + 1 /\ side' = 1 /\ pc' = 1 /\ stack' = <<>> /\ UNCHANGED <<c, res, verdict>>
                          ELSE /\ verdict' = "ok" /\ Say("ok", "") /\ UNCHANGED <<c, run, side, pc, stack, res>>
Differ == /\ verdict = "" /\ pc > Len(Prog) /\ side = 2 /\ Len(stack) = 1 /\ stack[1] # res
          /\ verdict' = "differs" /\ Say("differs", Case.text) /\ UNCHANGED <<c, run, side, pc, stack, res>>
Stuck == /\ verdict = "" /\ "bad" \notin DOMAIN Case /\ (IF pc <= Len(Prog) THEN Arity(Prog[pc]) > Len(stack) ELSE Len(stack) # 1)
         /\ verdict' = "stuck" /\ Say("stuck", "not an expression: " \o Case.text) /\ UNCHANGED <<c, run, side, pc, stack, res>>
Next == Broken \/ Step \/ Switch \/ Agree \/ Differ \/ Stuck
Spec == Init /\ [][Next]_vars
=============================================================================
