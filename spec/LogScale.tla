----------------------------- MODULE LogScale -----------------------------
(* Logarithms of integers in integer arithmetic (digit-by-digit squaring), and
   the scales built on them.  Log2Frac has an error below 1e-4. *)
EXTENDS NeoMath

RECURSIVE FLog2(_)
FLog2(x) == IF x <= 1 THEN 0 ELSE 1 + FLog2(x \div 2)
(* mantissa of x in [2^14, 2^15], rounded *)
Mant(x) == LET n == FLog2(x) IN
    IF n <= 14 THEN x * 2^(14 - n)
    ELSE LET u == 2^(n - 14) IN (x + u \div 2) \div u
RECURSIVE FracBits(_, _, _)
FracBits(m, k, acc) ==       \* m in Q14, k bits still to produce
    IF k = 0 THEN acc
    ELSE LET q == (m * m + 8192) \div 16384 IN     \* m^2 in Q14
         IF q >= 32768 THEN FracBits((q + 1) \div 2, k - 1, 2 * acc + 1)
                       ELSE FracBits(q, k - 1, 2 * acc)
(* fractional part of log2 x in units of 2^-14 *)
Log2Frac(x) == LET m == Mant(x) IN IF m >= 32768 THEN 16384 ELSE FracBits(m, 14, 0)
(* log2 x in units of 1e-5 *)
Log2E5(x) == FLog2(x) * 100000 + (Log2Frac(x) * 12500) \div 2048
(* 20 log10 x in units of 1e-3 *)
DbMilli(x) == (FLog2(x) * 60206) \div 10 + (Log2Frac(x) * 6021) \div 16384
(* the same for x * 2^k *)
DbMilli2(x, k) == DbMilli(x) + (k * 60206) \div 10

(* IEC 61672 A-weighting of the frequency n / s (s in {1, 8}), in 1e-3 dB *)
AWeight(n, s) ==
    LET q  == s * s
        f2 == n * n                                    \* q f^2
        c0 == 148698928  c1 == 4243187  c2 == 11589093
        d1 == f2 + (q * c1) \div 10000
        d2 == f2 + (q * c2) \div 1000
        d3 == f2 + (IF q = 1 THEN 544441 ELSE 34844203)
    IN  2000 + DbMilli(c0) + 2 * DbMilli(f2)
        - DbMilli(f2 \div q + c0) - DbMilli(d1) - (DbMilli(d2) + DbMilli(d3)) \div 2

(* mel number of h hertz, in units of 0.01 mel *)
Mel100(h) == ((DbMilli(700 + h) - DbMilli(700)) * 2595) \div 200
==========================================================================
