---------------------------- MODULE GenLinAlg ----------------------------
(* Random programs of the LinAlg machine (TLC -simulate), printed as scenarios:
   <<length, op, x, y, a_re, a_im, o, op, x, y, ...>>.  The real code executes
   each program on several element types, shapes and storage layouts, and the
   recorded memory is validated against LinAlg by TraceLinAlg.               *)
EXTENDS LinAlg, TLC
CONSTANT Length
VARIABLES prog
Objs == 1..4
Coef == {<<-2, 1>>, <<0, -1>>, <<3, 2>>, <<1, 0>>}
Init == env = [i \in Objs |-> <<i, 1 - i>>] /\ prog = <<>>
Emit(op, x, y, a, o) == prog' = prog \o <<op, x, y, a[1], a[2], o>>
Full == Len(prog) = 6 * Length
Next == \/ ~Full /\ \/ \E x, y, o \in Objs : DoAdd(x, y, o) /\ Emit(1, x, y, <<0, 0>>, o)
                    \/ \E x, y, o \in Objs : DoMul(x, y, o) /\ Emit(2, x, y, <<0, 0>>, o)
                    \/ \E c \in Coef, o \in Objs : DoScale(c, o) /\ Emit(3, o, o, c, o)
                    \/ \E c \in Coef, o \in Objs : DoFill(c, o) /\ Emit(4, o, o, c, o)
                    \/ \E x, o \in Objs : DoCopy(x, o) /\ Emit(5, x, x, <<0, 0>>, o)
        \/ Full /\ PrintT(<<"SCENARIO", <<Length>> \o prog>>) /\ prog' = <<>> /\ env' = env
Bounded == \A i \in Objs : \A k \in 1..2 : env[i][k] < 20000 /\ env[i][k] > -20000
==========================================================================
