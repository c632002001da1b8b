------------------------------- MODULE GenExpr -------------------------------
(* Texts of parameter expressions with their meaning.  An expression is built on a stack (a behaviour is its postfix       *)
(* form); every item carries its text, the precedence level of its outermost operator, and its postfix program.  Brackets  *)
(* are written only where the level demands them, or (a step of its own) where they change nothing.                         *)
(* Levels: 0 sum, 1 product, 2 sign, 3 power, 4 closed.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
L == atoi(IOEnv.GEN_L)
Full == IOEnv.GEN_FULL = "1"
VARIABLES items, n, tight
vars == <<items, n, tight>>
Num(t, a, b) == [t |-> t, l |-> 4, p |-> <<[k |-> "n", n |-> a, d |-> b]>>, num |-> TRUE]
VarI(t, j) == [t |-> t, l |-> 4, p |-> <<[k |-> "v", j |-> j]>>, num |-> FALSE]
Leaves == {Num("2", 2, 1), VarI("a", 1), VarI("b_1", 2)} \cup
  (IF Full THEN {Num("0.5", 1, 2), Num("1e1", 10, 1), Num("2.5E-1", 1, 4), Num("7.", 7, 1), Num("0", 0, 1), Num("12.25e+1", 245, 2), VarI("pi2", 3),
                 [t |-> "pi", l |-> 4, p |-> <<[k |-> "pi"]>>, num |-> FALSE]} ELSE {})
Br(x) == "(" \o x.t \o ")"
At(x, l) == IF x.l >= l THEN x.t ELSE Br(x)
Sp == IF tight THEN "" ELSE " "
Infix(k, s, l, lx, ly, x, y) == [t |-> At(x, lx) \o Sp \o s \o Sp \o At(y, ly), l |-> l, p |-> x.p \o y.p \o <<[k |-> k]>>, num |-> FALSE]
Fn(f, x) == [t |-> f \o "(" \o x.t \o ")", l |-> 4, p |-> x.p \o <<[k |-> f]>>, num |-> FALSE]
Binary(x, y) ==
  {Infix("add", "+", 0, 0, 1, x, y), Infix("sub", "-", 0, 0, 1, x, y), Infix("mul", "*", 1, 1, 2, x, y), Infix("div", "/", 1, 1, 2, x, y),
   Infix("pow", "**", 3, 4, 2, x, y)}
  \cup {[t |-> f \o "(" \o x.t \o "," \o Sp \o y.t \o ")", l |-> 4, p |-> x.p \o y.p \o <<[k |-> f]>>, num |-> FALSE] : f \in {"max", "min"}}
  \* a number next to a name, a call or a bracket is a product
  \cup (IF x.num /\ y.l = 4 /\ ~y.num THEN {[t |-> x.t \o Sp \o y.t, l |-> 1, p |-> x.p \o y.p \o <<[k |-> "mul"]>>, num |-> FALSE]} ELSE {})
Unary(x) ==
  {[t |-> "-" \o (IF Len(x.t) % 2 = 0 THEN Sp ELSE "") \o At(x, 2), l |-> 2, p |-> x.p \o <<[k |-> "neg"]>>, num |-> FALSE]}
  \cup {Fn("abs", x)}
  \cup (IF Full THEN {Fn(f, x) : f \in {"floor", "ceil", "round"}} \cup {[t |-> "f2(" \o x.t \o ")", l |-> 4, p |-> <<[k |-> "u", s |-> "f2(" \o x.t \o ")"]>>, num |-> FALSE]} ELSE {})
  \cup (IF x.l < 4 THEN {[t |-> Br(x), l |-> 4, p |-> x.p, num |-> FALSE]} ELSE {})
Init == items = <<>> /\ n = 0 /\ tight \in BOOLEAN
Push ==
        \E x \in Leaves : items' = Append(items, x)
Top(k) == items[Len(items) + 1 - k]
Join == /\ Len(items) >= 2 /\ \E z \in Binary(Top(2), Top(1)) : items' = Append(SubSeq(items, 1, Len(items) - 2), z)
Wrap == /\ Len(items) >= 1 /\ \E z \in Unary(Top(1)) : items' = Append(SubSeq(items, 1, Len(items) - 1), z)
Next == /\ n < L /\ n' = n + 1 /\ UNCHANGED tight
        /\ (Push \/ Join \/ Wrap)
        /\ Len(items') <= L - n          \* the remaining steps can join the stack
Spec == Init /\ [][Next]_vars
Emit == (n = L /\ Len(items) = 1) => PrintT("GEN " \o ToJson([text |-> items[1].t, post |-> items[1].p]))
=============================================================================
