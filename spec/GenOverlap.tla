---------------------------- MODULE GenOverlap ----------------------------
(* Histories: <<kind, B, F, (length percent, filter kind, block kind)*>> *)
EXTENDS Integers, Sequences, TLC
CONSTANT Length
VARIABLE h
Pick == \E k \in 0..1, b \in {RandomElement(1..20)}, f \in {RandomElement(1..20)} :
            h' = <<k, b, f>>
Init == h = <<>>
Next == IF h = <<>> THEN Pick
        ELSE IF Len(h) < 3 + 3 * Length
        THEN \E p \in {RandomElement({1, 40, 80, 100, 100})}, a \in {RandomElement(0..5)}, b \in {RandomElement(0..4)} :
                h' = h \o <<p, a, b>>
        ELSE PrintT(<<"SCENARIO", h>>) /\ h' = <<>>
==========================================================================
