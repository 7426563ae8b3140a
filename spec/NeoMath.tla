----------------------------- MODULE NeoMath -----------------------------
(* Integer mathematics shared by all modules. *)
EXTENDS Integers, Sequences

Abs(x)    == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
CeilDiv(a, b) == -((-a) \div b)
(* arithmetic shift right: floor(x / 2^k); \div floors for positive divisors *)
Asr(x, k) == x \div (2^k)
(* truncation towards zero *)
TruncDiv(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* signed range of a w-bit two's complement word, w <= 31 *)
IntMin(w) == -(2^(w - 1))
IntMax(w) == 2^(w - 1) - 1
Sat(w, x) == Clamp(x, IntMin(w), IntMax(w))

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SeqSum(q)   == SumTo(q, Len(q))
RECURSIVE SumRange(_, _, _)
SumRange(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumRange(F, a + 1, b)

Zeros(n) == [i \in 1..n |-> 0]
At(q, i) == IF i \in 1..Len(q) THEN q[i] ELSE 0      \* 1-based, zero outside
At0(q, i) == IF i >= 0 /\ i < Len(q) THEN q[i + 1] ELSE 0   \* 0-based
==========================================================================
