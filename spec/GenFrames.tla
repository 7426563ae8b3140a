---------------------------- MODULE GenFrames ----------------------------
(* <<frame, overlap, transform size, window, (channels, length)*>>: one plan, several calls *)
EXTENDS Integers, Sequences, TLC
CONSTANT Length
VARIABLE h
Init == h = <<>>
Next == IF h = <<>>
        THEN \E f \in {RandomElement(1..24)} : \E o \in {RandomElement(0..(f - 1)), 0, f \div 2}, t \in {RandomElement(f..(2 * f)), f, 2 * f}, w \in {RandomElement(0..3)} :
                h' = <<f, IF o < f THEN o ELSE 0, t, w>>
        ELSE IF Len(h) < 4 + 2 * Length
        THEN \E c \in {RandomElement(1..3)}, n \in {RandomElement(1..(4 * h[1] + 3)), h[1], h[1] - h[2]} : h' = h \o <<c, n>>
        ELSE PrintT(<<"SCENARIO", h>>) /\ h' = <<>>
==========================================================================
