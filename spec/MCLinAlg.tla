----------------------------- MODULE MCLinAlg -----------------------------
(* All programs of MaxLen operations over three one-element objects: frame
   conditions and algebraic relations between the operations. *)
EXTENDS LinAlg
CONSTANT MaxLen
VARIABLES n, last
Objs == 1..3
Small == {<<0, 0>>, <<1, 0>>, <<-1, 2>>}
Init == /\ \E f \in [Objs -> Small] : env = [i \in Objs |-> f[i]]
        /\ n = 0 /\ last = [o |-> 0, prev |-> env]
Step(o) == n' = n + 1 /\ last' = [o |-> o, prev |-> env]
Next == n < MaxLen /\
    \/ \E x, y, o \in Objs : (DoAdd(x, y, o) \/ DoMul(x, y, o)) /\ Step(o)
    \/ \E x, y, z, o \in Objs : DoMulAdd(x, y, z, o) /\ Step(o)
    \/ \E a \in Small, o \in Objs : (DoScale(a, o) \/ DoFill(a, o)) /\ Step(o)
    \/ \E x, o \in Objs : DoCopy(x, o) /\ Step(o)
Shape == \A i \in Objs : Len(env[i]) = 2
Frame == \A i \in Objs : i # last.o => env[i] = last.prev[i]
==========================================================================
