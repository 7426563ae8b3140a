---------------------------- MODULE FixedPoint ----------------------------
(* Q-format arithmetic: a number of format (w, f) is a w-bit two's complement
   word x standing for x / 2^f.  All operators act on words. *)
EXTENDS NeoMath

Words(w)          == IntMin(w)..IntMax(w)
FxNeg(w, a)       == Sat(w, -a)
FxAdd(w, a, b)    == Sat(w, a + b)
FxSub(w, a, b)    == Sat(w, a - b)
(* product rounded towards minus infinity, saturated *)
FxMul(w, f, a, b) == Sat(w, Asr(a * b, f))
(* product rounded to nearest (ties up), saturated: the vector instruction *)
FxMulR(w, f, a, b) == Sat(w, Asr(a * b + 2^(f - 1), f))
(* what an element of a vectorised multiplication may be *)
FxMulV(w, f, a, b, r) ==
    \/ r = FxMul(w, f, a, b)
    \/ w = 16 /\ f = 15 /\ r = FxMulR(w, f, a, b)

(* the real number m * 2^e (|m| < 2^24) as a word: truncated, saturated *)
FxFromReal(w, f, m, e) ==
    LET sh == e + f
        top == IF m < 0 THEN IntMin(w) ELSE IntMax(w)
    IN  IF m = 0 THEN 0
        ELSE IF sh >= 0
             THEN IF sh > 15 \/ Abs(m) > 2^(w - 1) THEN top ELSE Sat(w, m * 2^sh)
             ELSE IF -sh >= 25 THEN 0 ELSE Sat(w, TruncDiv(m, 2^(-sh)))

B2I(b) == IF b THEN 1 ELSE 0
(* eq + 2 ne + 4 lt + 8 le + 16 gt + 32 ge *)
FxCompare(a, b) == B2I(a = b) + 2 * B2I(a # b) + 4 * B2I(a < b)
                   + 8 * B2I(a <= b) + 16 * B2I(a > b) + 32 * B2I(a >= b)

FxApply(w, f, k, a, b) ==
    CASE k = "add" -> FxAdd(w, a, b)
      [] k = "sub" -> FxSub(w, a, b)
      [] k = "mul" -> FxMul(w, f, a, b)
      [] k = "neg" -> FxNeg(w, a)
      [] k = "pos" -> a
==========================================================================
