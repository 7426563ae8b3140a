--------------------------- MODULE MCFixedPoint ---------------------------
(* Exhaustive check of the fixed-point specification itself on all formats of
   a few bits, all operand pairs, all programs of MaxLen steps. *)
EXTENDS FixedPointMachine
CONSTANTS MaxW, MaxLen
VARIABLE n
Kinds == {"add", "sub", "mul", "neg", "pos"}
Init == /\ \E w \in 2..MaxW : \E f \in 1..(w - 1) : fmt = [w |-> w, f |-> f]
        /\ acc \in Words(fmt.w) /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E k \in Kinds : \E b \in Words(fmt.w) : FxStep(k, b)

InRange == acc \in Words(fmt.w)
w == fmt.w
f == fmt.f
(* laws of the operators, for the register against every operand *)
Laws ==
    \A b \in Words(w) :
       /\ FxAdd(w, acc, b) = FxAdd(w, b, acc)
       /\ FxMul(w, f, acc, b) = FxMul(w, f, b, acc)
       /\ FxAdd(w, acc, 0) = acc /\ FxSub(w, acc, 0) = acc /\ FxMul(w, f, acc, 0) = 0
       /\ FxSub(w, acc, acc) = 0
       /\ (FxNeg(w, b) = -b => FxSub(w, acc, b) = FxAdd(w, acc, FxNeg(w, b)))
       (* the result is the exact one, or the nearest end of the range *)
       /\ LET e == acc * b r == FxMul(w, f, acc, b) IN
             \/ r * 2^f <= e /\ e < (r + 1) * 2^f
             \/ r = IntMax(w) /\ e >= (r + 1) * 2^f
             \/ r = IntMin(w) /\ e < r * 2^f
       (* the vector result is within one step of the scalar result *)
       /\ FxMulR(w, f, acc, b) - FxMul(w, f, acc, b) \in {0, 1}
       (* monotone in each operand *)
       /\ \A c \in Words(w) : b <= c =>
             /\ FxAdd(w, acc, b) <= FxAdd(w, acc, c)
             /\ FxSub(w, acc, c) <= FxSub(w, acc, b)
             /\ (acc >= 0 => FxMul(w, f, acc, b) <= FxMul(w, f, acc, c))
       (* exactly one of <, =, > and the derived relations agree *)
       /\ FxCompare(acc, b) \in {1 + 8 + 32, 2 + 4 + 8, 2 + 16 + 32}
(* conversion round trip: the word x read as x * 2^-f converts back to x *)
RoundTrip == FxFromReal(w, f, acc, -f) = acc
(* conversion truncates towards zero and saturates: m/4 of a step *)
Conv == \A m \in -40..40 : LET r == FxFromReal(w, f, m, -f - 2) IN
            \/ Abs(4 * r) <= Abs(m) /\ Abs(m) < Abs(4 * r) + 4 /\ (r = 0 \/ Sign(r) = Sign(m))
            \/ r = IntMax(w) /\ m >= 4 * (r + 1)
            \/ r = IntMin(w) /\ m <= 4 * r
==========================================================================
