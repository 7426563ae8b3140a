----------------------------- MODULE MCSparse -----------------------------
(* Design model: (a) masks that together hold every bin once give the dense kernel;
   (b) with nothing dropped the sparse convolver is the linear convolution of the
   stream, under both schemes; (c) with masks split between two convolvers the
   sum of their outputs is again the dense output (linearity in the filter).   *)
EXTENDS Sparse
CONSTANTS Blk1, Segs, Steps
VARIABLES t, all, y0, y1, want
h0 == [i \in 1..(Segs * Blk1) |-> 2 ^ (i - 1)]
Rep(m) == [q \in 1..Segs |-> m]
Start(scheme, masks) == [b |-> Blk1, scheme |-> scheme, ker |-> Kernels(h0, Blk1, masks), past |-> <<>>]
VARIABLE scheme
Init == /\ scheme \in {"ols", "ola"}
        /\ \E d \in {<<0, 1>>, <<2, 3>>, <<3, 2>>} : st = [o \in Objects |-> Start(scheme, Rep(d[o + 1]))]
        /\ t = 0 /\ all = <<>> /\ y0 = <<>> /\ y1 = <<>> /\ want = <<>>
Next == IF t = Steps THEN UNCHANGED <<st, t, all, y0, y1, want, scheme>> ELSE
        \E x \in [1..Blk1 -> {0, 1, -3}] :
          /\ t' = t + 1 /\ all' = all \o x /\ scheme' = scheme
          /\ y0' = SpOut(0, x) /\ y1' = SpOut(1, x)
          /\ want' = [i \in 1..Blk1 |-> 2 * Blk1 * ConvAt(all \o x, h0, Len(all) + i - 1)]
          /\ st' = [o \in Objects |-> [st[o] EXCEPT !.past = Take(<<x>> \o @, Segs + 1)]]
Linear == AddSeq(y0, y1) = want
Parts  == LET g == PadTo(h0, 8) IN
          /\ AddSeq(Kernel(g, 2), Kernel(g, 3)) = Kernel(g, 0)
          (* of the bins 0..4 of a transform of eight, the multiples of four are DC and Nyquist *)
          /\ AddSeq(Kernel(g, 4), Kernel(g, 5)) = Kernel(g, 6)
==========================================================================
