------------------------------ MODULE MCStats ------------------------------
(* The reductions as accumulator loops that visit the elements in any order
   (row-major, column-major, strided storage visit differently); the results
   do not depend on the order and satisfy the laws users rely on.            *)
EXTENDS Stats
CONSTANTS N
V == {-3, -1, 0, 2, 5}
VARIABLES x, todo, sum, sq, mx
vars == <<x, todo, sum, sq, mx>>
Init == /\ x \in UNION {[1..n -> V] : n \in 0..N}
        /\ todo = DOMAIN x /\ sum = 0 /\ sq = 0 /\ mx = 0
Visit(i) == /\ todo' = todo \ {i} /\ sum' = sum + x[i] /\ sq' = sq + Sq(x[i]) /\ mx' = Max(mx, Abs(x[i])) /\ x' = x
Next == \E i \in todo : Visit(i)
Fin == todo = {}
Agree == Fin => sum = Sum(x) /\ sq = SumSq(x) /\ mx = MaxAbs(x)
Laws == Fin /\ Len(x) > 0 =>
    /\ VarNum(x) >= 0 /\ VarNum(x) = VarDef(x) /\ VarDef(Shift(x, 7)) = VarDef(x)
    /\ (VarNum(x) = 0) = (\A i, j \in DOMAIN x : x[i] = x[j])
    /\ \A i \in DOMAIN x : Abs(x[i]) <= mx
    /\ MseMicro(x, x) = 0
    /\ sq > 0 => \E i \in DOMAIN x : Abs(x[i]) = mx
==========================================================================
