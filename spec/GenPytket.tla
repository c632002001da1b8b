------------------------------ MODULE GenPytket ------------------------------
(* Behaviours of a pytket circuit on two qubits and two bits: every sequence of L commands over an alphabet that takes   *)
(* each way through the decoder (native, opaque, measured, discarded, classical, conditional, barrier, box, symbolic),    *)
(* on every choice of registers.  The state tracks what each register holds, so that sequences which cannot tell their    *)
(* registers apart are skipped.  TLC prints every circuit; the harness has the real code decode or re-encode it, and      *)
(* Equiv.tla compares the meanings (C20, C21, C22).                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
L == atoi(IOEnv.GEN_L)
Meas == 2

VARIABLES cmds, used, meas
vars == <<cmds, used, meas>>
Q(k) == <<"q", <<k>>>>
B(k) == <<"c", <<k>>>>
Cmd(op, args) == [op |-> op, args |-> args]
Bit(i) == [type |-> "term", input |-> [type |-> "var", term |-> [type |-> "bit", var |-> [index |-> i]]]]
Expr(op, n, out) == [type |-> "ClExpr", expr |-> [bit_posn |-> [i \in 1..n |-> <<i - 1, i - 1>>], expr |-> [op |-> op, args |-> [i \in 1..n |-> Bit(i - 1)]],
                                                reg_posn |-> <<>>, output_posn |-> <<out>>]]
Box(qs, bs, cs) == [type |-> "CircBox", box |-> [type |-> "CircBox", id |-> "00000000-0000-4000-8000-000000000000",
                    circuit |-> [phase |-> "0", commands |-> cs, qubits |-> qs, bits |-> bs, implicit_permutation |-> [i \in DOMAIN qs |-> <<qs[i], qs[Len(qs) + 1 - i]>>]]]]
If(v, op) == [type |-> "Conditional", conditional |-> [op |-> op, width |-> 1, value |-> v]]

Alphabet ==
  LET I == {0, 1}
      J(i) == 1 - i
      X == [type |-> "X"]
  IN {Cmd([type |-> "H"], <<Q(i)>>) : i \in I}
     \cup {Cmd([type |-> "CX"], <<Q(i), Q(J(i))>>) : i \in I}
     \cup {Cmd([type |-> "SX"], <<Q(i)>>) : i \in I}
     \cup {Cmd([type |-> "Rz", params |-> <<"a">>], <<Q(i)>>) : i \in I}
     \cup {Cmd([type |-> "Rx", params |-> <<"b_1 - a/2">>], <<Q(i)>>) : i \in I}
     \cup {Cmd([type |-> "U1", params |-> <<"a">>], <<Q(i)>>) : i \in I}
     \cup {Cmd([type |-> "Measure"], <<Q(i), B(j)>>) : i \in I, j \in I}
     \cup {Cmd([type |-> "Reset"], <<Q(i)>>) : i \in I}
     \cup {Cmd([type |-> "SetBits", classical |-> [values |-> <<TRUE>>]], <<B(j)>>) : j \in I}
     \cup {Cmd([type |-> "CopyBits", classical |-> [n_i |-> 1]], <<B(j), B(J(j))>>) : j \in I}
     \cup {Cmd(Expr("BitNot", 1, 1), <<B(j), B(J(j))>>) : j \in I}
     \cup {Cmd(Expr("BitNot", 1, 0), <<B(j)>>) : j \in I}
     \cup {Cmd(Expr("BitXor", 2, 1), <<B(j), B(J(j))>>) : j \in I}
     \cup {Cmd(If(v, X), <<B(j), Q(i)>>) : v \in I, j \in I, i \in I}
     \cup {Cmd([type |-> "Barrier", signature |-> <<"Q", "C">>], <<Q(i), B(j)>>) : i \in I, j \in I}
     \cup {Cmd([type |-> "Barrier", signature |-> <<"C", "C">>], <<B(0), B(1)>>)}
     \cup {Cmd(Box(<<Q(0)>>, <<B(0)>>, <<Cmd([type |-> "Rz", params |-> <<"a">>], <<Q(0)>>), Cmd(If(1, X), <<B(0), Q(0)>>)>>), <<Q(i), B(j)>>) : i \in I, j \in I}
     \cup {Cmd(Box(<<Q(0), Q(1)>>, <<>>, <<Cmd([type |-> "T"], <<Q(0)>>), Cmd([type |-> "Rx", params |-> <<"b_1">>], <<Q(1)>>)>>), <<Q(i), Q(J(i))>>) : i \in I}

Init == cmds = <<>> /\ used = {} /\ meas = 0
Add(c) ==
  /\ cmds' = Append(cmds, c)
  /\ used' = used \cup {c.args[k] : k \in DOMAIN c.args}
  /\ meas' = meas + (IF c.op.type \in {"Measure", "Reset"} THEN 1 ELSE 0)
  \* the second register of a kind is touched after the first one (the initial state is symmetric in them)
  /\ \A r \in {"q", "c"} : <<r, <<1>>>> \in used' => <<r, <<0>>>> \in used'
Next == Len(cmds) < L /\ meas < Meas /\ \E c \in Alphabet : Add(c)
Spec == Init /\ [][Next]_vars
Circuit(swap) == [phase |-> "0", commands |-> cmds, qubits |-> <<Q(0), Q(1)>>, bits |-> <<B(0), B(1)>>,
                  implicit_permutation |-> IF swap THEN <<<<Q(0), Q(1)>>, <<Q(1), Q(0)>>>> ELSE <<<<Q(0), Q(0)>>, <<Q(1), Q(1)>>>>]
\* a behaviour is printed when it is complete; every other one with its outputs swapped
Emit == (Len(cmds) = L) => PrintT("GEN " \o ToJson(Circuit(Cardinality(used) % 2 = 1)))
=============================================================================
