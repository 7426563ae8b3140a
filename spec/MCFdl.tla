------------------------------- MODULE MCFdl -------------------------------
(* Design model: ages.  Slot contents carry the time they were written; at every
   step, for every ring size, the pairing meets each of the last n segments with
   the filter segment of its age, each slot and each filter segment once.     *)
EXTENDS Fdl
CONSTANTS MaxN, MaxT
VARIABLES t, age      \* age[slot] = time of writing, -1 = never
Init == /\ \E k \in 1..MaxN : n = k /\ age = [q \in 0..(k - 1) |-> -1]
        /\ wp = 0 /\ rows = <<>> /\ t = 0
Next == IF t = MaxT THEN UNCHANGED <<n, wp, rows, t, age>>
        ELSE /\ t' = t + 1 /\ age' = [age EXCEPT ![wp] = t] /\ FdlAdvance
(* before the advance the slot wp holds time t - 1 after the store *)
Before == (wp - 1) % n
Right == t > 0 =>
    /\ \A pr \in Pairs(Before, n) : age[pr[1]] = -1 \/ age[pr[1]] = (t - 1) - pr[2]
    /\ Cardinality(Pairs(Before, n)) = n
    /\ {pr[2] : pr \in Pairs(Before, n)} = 0..(n - 1)
    /\ \A d \in 0..(Min(n, t) - 1) : \E pr \in Pairs(Before, n) : pr[2] = d /\ age[pr[1]] = t - 1 - d
==========================================================================
