------------------------------ MODULE GenDft ------------------------------
(* Histories of one plan object: which transforms it is asked for, in order.
   Scenario: (kind, dir, form, a, q)*  kind 1 = impulse at position a/1000 * n with
   phase q, 2 = random spectrum, 3 = round trip; form = in place / copy / strided *)
EXTENDS Integers, Sequences, TLC
CONSTANT Length
VARIABLE h
Init == h = <<>>
Next == IF Len(h) < 5 * Length
        THEN \E kind \in 1..3, dir \in {-1, 1}, form \in 0..3 :
                \E a \in {RandomElement(0..999)}, q \in {RandomElement(0..3)} :
                    h' = h \o <<kind, dir, form, a, q>>
        ELSE PrintT(<<"SCENARIO", h>>) /\ h' = <<>>
==========================================================================
