--------------------------- MODULE MCIntHelpers ---------------------------
(* The limb definitions agree with their defining inequalities. *)
EXTENDS IntHelpers
VARIABLE x
Init == x \in 1..2000
Next == UNCHANGED x
L == <<x % 16, 0, x \div 16>>        \* 4-bit low limb shifted: value x mod 16 + 2^32 * (x div 16)
S == <<x>>
Def == /\ 2^FloorLog2(S) <= x /\ x < 2^(FloorLog2(S) + 1)
       /\ x <= 2^CeilLog2(S) /\ (x > 1 => 2^(CeilLog2(S) - 1) < x)
       /\ (x >= 16 => FloorLog2(L) = 32 + FloorLog2(<<x \div 16>>))
       /\ IsPow2(S) = (\E k \in 0..11 : 2^k = x)
       /\ PowerOfTwo(CeilLog2(S), 4)[1] >= x
       /\ PowMod(x, 3, 97) = ((x % 97) * (x % 97) * (x % 97)) % 97
       /\ CeilDiv(x, 7) * 7 >= x /\ (CeilDiv(x, 7) - 1) * 7 < x
==========================================================================
