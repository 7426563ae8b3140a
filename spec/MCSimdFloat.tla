--------------------------- MODULE MCSimdFloat ---------------------------
(* RoundNE is the nearest p-bit number, ties to even, for all small x. *)
EXTENDS SimdFloat
VARIABLES x, p
Init == x \in -300..300 /\ p \in 2..5
Next == UNCHANGED <<x, p>>
IsP(y) == \E e \in 0..9 : \E m \in 0..(2^p - 1) : m * 2^e = Abs(y)
Nearest == LET y == RoundNE(x, p) IN
    /\ IsP(y)
    /\ \A d \in 0..(Abs(x - y) - 1) : ~IsP(x + d) /\ ~IsP(x - d)
    /\ (IsP(x) => y = x)
    /\ RoundNE(-x, p) = -y
==========================================================================
