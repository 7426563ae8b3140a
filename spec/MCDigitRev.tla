---------------------------- MODULE MCDigitRev ----------------------------
(* The incremental reversed counter used to reorder in place: (i, j) counts
   j = reversal of i by carrying from the top digit; swapping each pair once
   (i < j) leaves the whole sequence reordered; reordering is an involution. *)
EXTENDS DigitRev
CONSTANTS MaxSize
VARIABLES radix, order, i, j, x, phase
vars == <<radix, order, i, j, x, phase>>
Size == radix ^ order
Init == /\ radix \in 2..5 /\ order \in 0..8 /\ radix ^ order <= MaxSize
        /\ i = 0 /\ j = 0 /\ x = [k \in 1..(radix ^ order) |-> k - 1] /\ phase = "run"
Swap(a, b) == [x EXCEPT ![a + 1] = x[b + 1], ![b + 1] = x[a + 1]]
RECURSIVE Carry(_, _)
Carry(jj, k) == IF k <= jj THEN Carry(jj - k, k \div radix) ELSE jj + (k \div (radix - 1))
Step == /\ phase = "run" /\ i < Size - 1
        /\ x' = IF i < j THEN Swap(i, j) ELSE x
        /\ j' = Carry(j, ((radix - 1) * Size) \div radix) /\ i' = i + 1
        /\ UNCHANGED <<radix, order, phase>>
Stop == phase = "run" /\ i = Size - 1 /\ phase' = "done" /\ UNCHANGED <<radix, order, i, j, x>>
Next == Step \/ Stop
Counter == j = Rev(radix, order, i)
Sorted  == phase = "done" => x = Reordered(radix, order, [k \in 1..Size |-> k - 1])
Involution == phase = "done" => Reordered(radix, order, x) = [k \in 1..Size |-> k - 1]
==========================================================================
