------------------------------ MODULE GenFdl ------------------------------
(* Histories <<n, rows, cols, (op, a)*>>: op 1 = turn the ring, 2 = reset it,
   3 = insert into row a, 4 = read everything back                          *)
EXTENDS Fdl, Sequences, TLC
CONSTANT Length
VARIABLE h
Init == n = 1 /\ wp = 0 /\ rows = <<>> /\ h = <<>>
Next == IF h = <<>> THEN \E k \in {RandomElement({1, 1, 2, 3, 4, 5, 7, 8})}, r \in {RandomElement(1..5)}, c \in {RandomElement({1, 2, 3, 5, 9, 17, 33})} :
               FdlNew(k) /\ h' = <<k, r, c>>
        ELSE IF Len(h) < 3 + 2 * Length
        THEN \E a \in {RandomElement(0..(h[2] - 1))}, w \in {RandomElement(1..9)} :
               IF w = 1 THEN FdlReset /\ h' = h \o <<2, 0>>
               ELSE IF w <= 4 THEN FdlAdvance /\ h' = h \o <<1, 0>>
               ELSE IF w <= 7 THEN UNCHANGED <<n, wp, rows>> /\ h' = h \o <<3, a>>
               ELSE UNCHANGED <<n, wp, rows>> /\ h' = h \o <<4, 0>>
        ELSE PrintT(<<"SCENARIO", h>>) /\ h' = <<>> /\ UNCHANGED <<n, wp, rows>>
==========================================================================
