---------------------------- MODULE MCOverlap ----------------------------
(* Design model: the windows the library keeps (zero-padded block and a tail of
   N - B samples; a sliding window of N samples), with circular convolution of
   length N, against the user's view, for every block over {0, 1, -2}, filters
   changing at every block, and B, F that are not powers of two.             *)
EXTENDS Overlap
CONSTANTS Cases, Steps, Which
Vals == {0, 1, -2}
Filters(f) == {[i \in 1..f |-> 2 ^ (i - 1)], [i \in 1..f |-> IF i = f THEN 1 ELSE 0], [i \in 1..((f + 1) \div 2) |-> -3]}
VARIABLES t, win, want, got
N == TransformSize(FullSize(ov.b, ov.f))
Init == /\ \E c \in Cases : ov = [kind |-> Which, b |-> c[1], f |-> c[2], mem |-> <<>>]
        /\ t = 0 /\ want = <<>> /\ got = <<>>
        /\ win = Zeros(IF Which = "add" THEN N - ov.b ELSE N)
AddImpl(x, h) == LET full == CircConv(PadTo(x, N), PadTo(h, N))
                     y    == [i \in 1..ov.b |-> full[i] + At(win, i)]
                 IN /\ got' = y
                    /\ win' = [i \in 1..(N - ov.b) |-> full[ov.b + i] + At(win, i + ov.b)]
SaveImpl(x, h) == LET w == Drop(win, ov.b) \o x
                  IN win' = w /\ got' = SubSeq(CircConv(w, PadTo(h, N)), N - ov.b + 1, N)
Next == IF t = Steps THEN UNCHANGED <<ov, t, win, want, got>> ELSE
        \E x \in [1..ov.b -> Vals] : \E h \in Filters(ov.f) :
          /\ t' = t + 1 /\ want' = OvOut(x, h) /\ OvStep(x, h)
          /\ IF Which = "add" THEN AddImpl(x, h) ELSE SaveImpl(x, h)
Refines == want = got
AllCases == {<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 4>>, <<3, 2>>, <<2, 5>>, <<3, 1>>}
==========================================================================
