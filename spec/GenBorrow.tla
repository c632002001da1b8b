------------------------------ MODULE GenBorrow ------------------------------
(* Behaviours of a program that borrows and returns elements of (nested) arrays by constant, computed or unknown index,   *)
(* acts on the borrowed elements in between, and may break the borrow discipline (then it panics).  TLC enumerates the    *)
(* sequences and prints each as a register program; the harness builds it, runs the real passes on it and TLC compares   *)
(* the meaning of both programs (C12, C13, C30).                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

L == atoi(IOEnv.GEN_L)
Kind == IOEnv.GEN_KIND          \* "q": array of 2 qubits, "i": array of 3 integers, "n": 2 x 2 nested qubits
Modes == IF IOEnv.GEN_MODES = "c" THEN {"c"} ELSE {"c", "k", "u"}
Wild == IOEnv.GEN_WILD = "1"    \* also sequences that break the discipline
Sz == IF Kind = "i" THEN 3 ELSE 2
Top == CASE Kind = "q" -> [AQ |-> 2] [] Kind = "i" -> [AI |-> 3] [] OTHER -> [AAQ |-> <<2, 2>>]
ElemK(k) == CASE k = "q2" -> "q" [] k = "i3" -> "i" [] k = "n" -> "q2"
TyOf(k) == CASE k = "q2" -> ToJson([AQ |-> 2]) [] k = "i3" -> ToJson([AI |-> 3]) [] k = "n" -> ToJson([AAQ |-> <<2, 2>>])
             [] k = "q" -> "\"Q\"" [] k = "i" -> "\"I\""
Start == CASE Kind = "q" -> "q2" [] Kind = "i" -> "i3" [] OTHER -> "n"

VARIABLES ks,     \* kind of each variable (0-based variable v is ks[v+1]); variable 0 is the array, variable 1 an unknown index
          live,   \* live variables
          out,    \* <<array variable, index>> pairs currently borrowed (by the discipline)
          from,   \* where each element variable came from
          body    \* statements so far
vars == <<ks, live, out, from, body>>

Init == ks = <<Start, "i">> /\ live = {0, 1} /\ out = {} /\ from = <<>> /\ body = <<>>
St(op, i, o, p) == [Op |-> [op |-> op, i |-> i, o |-> o, p |-> p, s |-> ""]]
Arrays == {v \in live : ks[v + 1] \in {"q2", "i3", "n"}}
N(v) == IF ks[v + 1] = "i3" THEN 3 ELSE 2
New == Len(ks)
\* index by constant ("c"), by a computed constant ("k") or by the unknown input ("u")
Idx(mode, k) == CASE mode = "c" -> <<>> [] mode = "k" -> <<St("cI", <<>>, <<New>>, <<k>>)>> [] OTHER -> <<>>
Borrow(a, k, mode) ==
  /\ mode = "u" => k = 0 /\ ks[a + 1] = "i3"
  /\ (~Wild /\ mode # "u") => <<a, k>> \notin out
  /\ LET pre == Idx(mode, k)
         e == New + (IF mode = "k" THEN 1 ELSE 0)
     IN /\ ks' = ks \o (IF mode = "k" THEN <<"i">> ELSE <<>>) \o <<ElemK(ks[a + 1])>>
        /\ live' = live \cup {e}
        /\ from' = Append(from, <<e, a, k>>)
        /\ out' = IF mode = "u" THEN out ELSE out \cup {<<a, k>>}
        /\ body' = body \o pre \o <<CASE mode = "c" -> St("bborrowc", <<a>>, <<a, e>>, <<k>>)
                                      [] mode = "k" -> St("bborrow", <<a, New>>, <<a, e>>, <<>>)
                                      [] OTHER -> St("bborrow", <<a, 1>>, <<a, e>>, <<>>)>>
Return(a, k, e, mode) ==
  /\ mode = "u" => k = 0 /\ ks[a + 1] = "i3"
  /\ (~Wild /\ mode # "u") => <<a, k>> \in out
  /\ LET pre == Idx(mode, k)
     IN /\ ks' = ks \o (IF mode = "k" THEN <<"i">> ELSE <<>>)
        /\ live' = live \ {e}
        /\ from' = from
        /\ out' = out \ {<<a, k>>}
        /\ body' = body \o pre \o <<CASE mode = "c" -> St("breturnc", <<a, e>>, <<a>>, <<k>>)
                                      [] mode = "k" -> St("breturn", <<a, New, e>>, <<a>>, <<>>)
                                      [] OTHER -> St("breturn", <<a, 1, e>>, <<a>>, <<>>)>>
\* act on an element so that it can be told apart
Mark(e) == /\ ks' = ks /\ UNCHANGED <<live, out, from>>
           /\ body' = Append(body, IF ks[e + 1] = "q" THEN St(<<"H", "T", "V">>[(Len(body) % 3) + 1], <<e>>, <<e>>, <<>>)
                                   ELSE St("iadd", <<e, e>>, <<e>>, <<>>))
Touch(a) == /\ UNCHANGED <<ks, live, out, from>>
            /\ body' = Append(body, St("noop", <<a>>, <<a>>, <<>>))
Pair(e, f) == /\ UNCHANGED <<ks, live, out, from>>
              /\ body' = Append(body, St("CX", <<e, f>>, <<e, f>>, <<>>))
Elems(a) == {e \in live \ {0, 1} : ks[e + 1] = ElemK(ks[a + 1]) /\ \A b \in out : b[1] # e}
Steps(b) == Len(SelectSeq(b, LAMBDA s : s.Op.op # "cI"))
Next ==
  /\ Steps(body) < L
  /\ \/ \E a \in Arrays, k \in 0..2, m \in Modes : k < N(a) /\ (m = "k" => (Len(body) + k) % 2 = 1) /\ Borrow(a, k, m)
     \/ \E a \in Arrays, k \in 0..2, m \in Modes : k < N(a) /\ (m = "k" => (Len(body) + k) % 2 = 0) /\ \E e \in Elems(a) : e # a /\ Return(a, k, e, m)
     \/ \E e \in live \ {0, 1} : ks[e + 1] \in {"q", "i"} /\ (e # 1) /\ Mark(e)
     \/ \E e, f \in live \ {0, 1} : e < f /\ ks[e + 1] = "q" /\ ks[f + 1] = "q" /\ Pair(e, f)
     \/ \E a \in Arrays : Len(body) > 1 /\ Touch(a)
Spec == Init /\ [][Next]_vars
\* interesting: a borrow after something was given back
Useful == \E j, k \in 1..Len(body) : j < k /\ body[j].Op.op \in {"breturn", "breturnc"} /\ body[k].Op.op \in {"bborrow", "bborrowc"} /\ body[j].Op.i[1] = body[k].Op.i[1]
Outs == SetToSortSeq(live \ {1}, LAMBDA x, y : x < y)
Prog == "{\"funcs\":[{\"name\":\"main\",\"vars\":[" \o FoldLeft(LAMBDA acc, k : IF acc = "" THEN TyOf(k) ELSE acc \o "," \o TyOf(k), "", ks)
         \o "],\"ins\":[0,1],\"outs\":" \o ToJson(Outs) \o ",\"body\":" \o ToJson(body) \o "}],\"order\":true}"
Emit == (Steps(body) = L /\ Useful) => PrintT("GEN " \o Prog)
=============================================================================
