----------------------------- MODULE DigitRev -----------------------------
(* Digit reversal of 0-based indices with `order` digits in base `radix`.    *)
EXTENDS Integers, Sequences
RECURSIVE Rev(_, _, _)
Rev(radix, order, i) == IF order = 0 THEN 0
    ELSE ((i % radix) * radix ^ (order - 1)) + Rev(radix, order - 1, i \div radix)
Reordered(radix, order, x) == [k \in 1..Len(x) |-> x[Rev(radix, order, k - 1) + 1]]
==========================================================================
