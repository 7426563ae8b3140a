------------------------------ MODULE MCConv ------------------------------
(* Design model: (a) the two-phase loop of the direct method, as a machine that
   writes one output per step, (b) the transform method (circular convolution of
   zero-padded operands), both against the definition.                       *)
EXTENDS Conv
CONSTANTS MaxN, MaxL
Vals == {-1, 0, 2}
VARIABLES x, h, out, i
vars == <<x, h, out, i>>
Init == /\ \E n \in 1..MaxN : x \in [1..n -> Vals]
        /\ \E l \in 1..MaxL : h \in [1..l -> Vals]
        /\ out = <<>> /\ i = 0
(* a: the longer operand, b: the shorter one (the code swaps them) *)
A == IF Len(x) >= Len(h) THEN x ELSE h
B == IF Len(x) >= Len(h) THEN h ELSE x
RECURSIVE Inner(_, _, _)
Inner(k, m, lim) == IF m >= lim THEN 0 ELSE A[m + 1] * B[k - m + 1] + Inner(k, m + 1, lim)
Step == LET k == Len(out) IN
        /\ k < FullSize(Len(x), Len(h))
        /\ IF k < Len(B)
           THEN out' = Append(out, Inner(k, 0, k + 1)) /\ i' = i
           ELSE i' = i + 1 /\ out' = Append(out, Inner(k, i + 1, Min(Len(B) + i + 1, Len(A))))
        /\ UNCHANGED <<x, h>>
Stop == Len(out) = FullSize(Len(x), Len(h)) /\ UNCHANGED vars
Next == Step \/ Stop
Direct  == \A k \in 1..Len(out) : out[k] = ConvAt(x, h, k - 1)
Commute == FullConv(x, h) = FullConv(h, x) /\ FullConvS(x, h) = FullConv(x, h)
ByTransform ==
    LET n == TransformSize(FullSize(Len(x), Len(h)))
    IN Take(CircConv(PadTo(x, n), PadTo(h, n)), FullSize(Len(x), Len(h))) = FullConv(x, h)
(* a transform one size too small aliases: the padding rule is necessary *)
==========================================================================
