---------------------------- MODULE IntHelpers ----------------------------
(* Integer helpers on words up to 64 bits.  A wide word is a sequence of
   16-bit limbs, least significant first. *)
EXTENDS NeoMath

RECURSIVE Log2Small(_)
Log2Small(x) == IF x <= 1 THEN 0 ELSE 1 + Log2Small(x \div 2)
RECURSIVE TopLimb(_, _)
TopLimb(x, i) == IF i = 0 THEN 0 ELSE IF x[i] # 0 THEN i ELSE TopLimb(x, i - 1)
IsZero(x)  == \A i \in 1..Len(x) : x[i] = 0
(* floor(log2 x), x > 0 *)
FloorLog2(x) == LET i == TopLimb(x, Len(x)) IN 16 * (i - 1) + Log2Small(x[i])
IsPow2(x) == /\ ~IsZero(x)
             /\ LET i == TopLimb(x, Len(x)) IN
                  /\ x[i] = 2^Log2Small(x[i])
                  /\ \A j \in 1..Len(x) : j # i => x[j] = 0
(* smallest k with 2^k >= x *)
CeilLog2(x) == IF IsZero(x) THEN 0 ELSE FloorLog2(x) + (IF IsPow2(x) THEN 0 ELSE 1)
PowerOfTwo(k, n) == [i \in 1..n |-> IF i - 1 = k \div 16 THEN 2^(k % 16) ELSE 0]

RECURSIVE PowMod(_, _, _)
PowMod(b, e, p) == IF e = 0 THEN 1 % p ELSE ((((b % p) + p) % p) * PowMod(b, e - 1, p)) % p

Odd(x) == (x % 2) = 1        \* TLC's % is non-negative for a positive modulus
==========================================================================
