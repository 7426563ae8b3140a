---------------------------- MODULE MCLogScale ----------------------------
(* The integer logarithm is a homomorphism, monotone, and exact at powers of
   two and (within one unit) at powers of ten. *)
EXTENDS LogScale
CONSTANT N
VARIABLE x
Init == x \in 1..N
Next == UNCHANGED x
Near(a, b, t) == a - b <= t /\ b - a <= t
Laws == /\ DbMilli(x) <= DbMilli(x + 1) + 1
        /\ Near(DbMilli(2 * x), DbMilli(x) + 6021, 3)
        /\ Near(DbMilli(3 * x), DbMilli(x) + 9542, 3)
        /\ Near(DbMilli(10 * x), DbMilli(x) + 20000, 3)
        /\ Near(DbMilli(1000 * x), DbMilli(x) + 60000, 3)
        /\ Near(Log2E5(8 * x), Log2E5(x) + 300000, 15)
        /\ Near(Log2E5(7 * x), Log2E5(x) + 280735, 25)
        /\ Near(Mel100(6300), 259500, 60)
        /\ Mel100(x) <= Mel100(x + 1) + 30
        /\ Near(AWeight(1000, 1), 0, 15) /\ Near(AWeight(8000, 8), 0, 15)
        /\ Near(AWeight(800, 8), -19145, 20) /\ Near(AWeight(10000, 1), -2488, 20)
==========================================================================
