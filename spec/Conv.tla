------------------------------- MODULE Conv -------------------------------
(* Linear and circular convolution of integer sequences.  Positions are
   counted from zero in every argument k.                                   *)
EXTENDS NeoMath

RECURSIVE DotBack(_, _, _, _, _)
(* sum over j in a..b of h[j] * x[k - j] *)
DotBack(x, h, k, a, b) ==
    IF a > b THEN 0
    ELSE (IF h[a + 1] = 0 THEN 0 ELSE h[a + 1] * x[k - a + 1]) + DotBack(x, h, k, a + 1, b)

(* sample k of the full linear convolution *)
ConvAt(x, h, k) == DotBack(x, h, k, Max(0, k - Len(x) + 1), Min(k, Len(h) - 1))
FullSize(n, l)  == n + l - 1
FullConv(x, h)  == [i \in 1..FullSize(Len(x), Len(h)) |-> ConvAt(x, h, i - 1)]

(* the positions at which h is not zero *)
Support(h) == SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : h[i] # 0)
(* sum over the support of h: sample k of the linear convolution *)
RECURSIVE SparseDot(_, _, _, _, _)
SparseDot(x, h, sup, k, i) ==
    IF i > Len(sup) THEN 0
    ELSE At0(x, k - sup[i] + 1) * h[sup[i]] + SparseDot(x, h, sup, k, i + 1)
FullConvS(x, h) == LET sup == Support(h) IN [i \in 1..FullSize(Len(x), Len(h)) |-> SparseDot(x, h, sup, i - 1, 1)]

(* circular convolution of two sequences of length n *)
RECURSIVE CircSum(_, _, _, _)
CircSum(x, c, k, j) ==
    IF j = Len(c) THEN 0
    ELSE (IF c[j + 1] = 0 THEN 0 ELSE c[j + 1] * x[((k - j) % Len(x)) + 1]) + CircSum(x, c, k, j + 1)
CircAt(x, c, k) == CircSum(x, c, k, 0)
CircConv(x, c)  == [i \in 1..Len(x) |-> CircAt(x, c, i - 1)]
PadTo(x, n)     == [i \in 1..n |-> At(x, i)]

Take(q, n) == SubSeq(q, 1, Min(n, Len(q)))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
(* element-wise sum, the shorter one extended by zeros *)
AddSeq(x, y) == [i \in 1..Max(Len(x), Len(y)) |-> At(x, i) + At(y, i)]

RECURSIVE BitCeil(_, _)
BitCeil(n, p) == IF p >= n THEN p ELSE BitCeil(n, 2 * p)
TransformSize(n) == BitCeil(n, 1)
==========================================================================
