-------------------------------- MODULE Fdl --------------------------------
(* The frequency-domain delay line.
   Index: a ring of n slots with a write position.  One step stores the newest
   segment at the write position, then pairs every slot exactly once with a
   filter segment, such that the slot written d steps ago meets filter segment d,
   then advances.
   Store: rows are independent; a row reads back what was last inserted in it,
   exactly (dense) or to the nearest step of 1/max (compressed integers).     *)
EXTENDS NeoMath, FiniteSets
VARIABLES n, wp, rows
FdlNew(k) == n' = k /\ wp' = 0 /\ rows' = rows
FdlReset  == wp' = 0 /\ UNCHANGED <<n, rows>>
Pairs(w, k) == {<<slot, (w - slot) % k>> : slot \in 0..(k - 1)}
FdlAdvance == wp' = (wp + 1) % n /\ UNCHANGED <<n, rows>>
(* quantisation of p / q to a step of 1 / m: any nearest integer (ties either way;
   the product is a float of 24 bits, up to 1/512 away from the real one)      *)
Nearest(p, q, m, r) == 2 * Abs((p * m) - (r * q)) <= q + (q \div 256)
==========================================================================
