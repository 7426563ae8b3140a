---------------------------- MODULE SimdFloat ----------------------------
(* Lane-wise arithmetic of floating-point batches on integers: the exact
   result rounded to p significant bits, ties to even (IEEE 754). *)
EXTENDS NeoMath

(* integer x rounded to p significant bits, |x| < 2^31 *)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
RoundNE(x, p) ==
    LET a  == Abs(x)
        sh == Max(BitLen(a) - p, 0)
        u  == 2^sh
        q  == a \div u
        r  == a % u
        up == IF sh = 0 THEN 0
              ELSE IF 2 * r > u THEN 1
              ELSE IF 2 * r = u /\ q % 2 = 1 THEN 1 ELSE 0
    IN  IF sh = 0 THEN x ELSE Sign(x) * (q + up) * u
FlApply(k, p, a, b) ==
    CASE k = "add" -> RoundNE(a + b, p)
      [] k = "sub" -> RoundNE(a - b, p)
      [] k = "mul" -> RoundNE(a * b, p)
(* complex numbers whose parts are batches: the component formulas, exact *)
FlComplex(k, ar, ai, br, bi) ==
    CASE k = "add" -> <<ar + br, ai + bi>>
      [] k = "sub" -> <<ar - br, ai - bi>>
      [] k = "mul" -> <<ar * br - ai * bi, ar * bi + ai * br>>
==========================================================================
