------------------------------ MODULE Sparse ------------------------------
(* Partitioned convolution with a sparsified filter.  Dropping bins of the
   spectrum of a filter segment replaces the segment by another circular kernel
   of length N = 2B; everything else is as in the dense convolver: overlap-save
   keeps the last B samples of the circular convolution of each window, overlap-
   add adds the two halves of consecutive blocks.  Kernels are kept times N, so
   that they are integers.                                                   *)
EXTENDS Conv
VARIABLE st
Objects == {0, 1}
RECURSIVE SumOf(_, _)
SumOf(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumOf(q, i - 1)
Alt(k) == IF k % 2 = 0 THEN 1 ELSE -1
(* N times the kernel that remains of segment g (length N) when only the bins of
   the mask are kept: 0 all, 1 none, 2 even, 3 odd, 4 DC, 5 Nyquist, 6 multiples of 4,
   7 all but Nyquist, 8 all but DC *)
RECURSIVE Kernel(_, _)
Kernel(g, mask) ==
    LET n == Len(g)
        a(i) == g[(i % n) + 1]
    IN CASE mask = 0 -> [k \in 1..n |-> n * g[k]]
         [] mask = 1 -> Zeros(n)
         [] mask = 2 -> [k \in 1..n |-> (n \div 2) * (a(k - 1) + a(k - 1 + (n \div 2)))]
         [] mask = 3 -> [k \in 1..n |-> (n \div 2) * (a(k - 1) - a(k - 1 + (n \div 2)))]
         [] mask = 4 -> LET t == SumOf(g, n) IN [k \in 1..n |-> t]
         [] mask = 5 -> LET t == SumOf([k \in 1..n |-> Alt(k - 1) * g[k]], n) IN [k \in 1..n |-> Alt(k - 1) * t]
         [] mask = 6 -> [k \in 1..n |-> (n \div 4) * (a(k - 1) + a(k - 1 + (n \div 4)) + a(k - 1 + (n \div 2)) + a(k - 1 + 3 * (n \div 4)))]
         [] mask = 7 -> LET w == Kernel(g, 5) IN [k \in 1..n |-> n * g[k] - w[k]]
         [] mask = 8 -> LET w == Kernel(g, 4) IN [k \in 1..n |-> n * g[k] - w[k]]
Segment(h, b, q) == PadTo(SubSeq(h, (q * b) + 1, Min(Len(h), (q + 1) * b)), 2 * b)
Kernels(h, b, masks) == [q \in 1..Len(masks) |-> Kernel(Segment(h, b, q - 1), masks[q])]
None == [b |-> 0, scheme |-> "ols", ker |-> <<>>, past |-> <<>>]
(* past: newest block first, at most Segs + 1 of them *)
SpLoad(o, scheme, b, h, masks) ==
    st' = [st EXCEPT ![o] = [b |-> b, scheme |-> scheme, ker |-> Kernels(h, b, masks), past |-> <<>>]]
Blk(p, b, d) == IF d + 1 <= Len(p) THEN p[d + 1] ELSE Zeros(b)
(* sum over the segments of one output sample (times N) *)
RECURSIVE OlsSum(_, _, _, _, _)
OlsSum(p, ker, b, i, q) ==
    IF q > Len(ker) THEN 0
    ELSE CircAt(Blk(p, b, q) \o Blk(p, b, q - 1), ker[q], b + i) + OlsSum(p, ker, b, i, q + 1)
RECURSIVE OlaSum(_, _, _, _, _)
OlaSum(p, ker, b, i, q) ==
    IF q > Len(ker) THEN 0
    ELSE CircAt(PadTo(Blk(p, b, q - 1), 2 * b), ker[q], i) + CircAt(PadTo(Blk(p, b, q), 2 * b), ker[q], b + i)
         + OlaSum(p, ker, b, i, q + 1)
SpOut(o, x) ==
    LET z == st[o]
        p == <<x>> \o z.past
    IN [i \in 1..z.b |-> IF z.scheme = "ols" THEN OlsSum(p, z.ker, z.b, i - 1, 1) ELSE OlaSum(p, z.ker, z.b, i - 1, 1)]
SpStep(o, x) == st' = [st EXCEPT ![o].past = Take(<<x>> \o @, Len(st[o].ker) + 1)]
==========================================================================
