----------------------------- MODULE PartConv -----------------------------
(* Uniformly partitioned convolution as the library does it, in the time domain
   (a product of spectra of size 2B is a circular convolution of length 2B):
   a ring of the last Segs input windows (frequency-domain delay line), a write
   position, one product per ring slot with the filter segment
   (write - slot) mod Segs, and overlap-save or overlap-add around it.       *)
EXTENDS Conv, FiniteSets
VARIABLES ring, wp, win, ov
N(B) == 2 * B
PartInit(B, segs) ==
    /\ ring = [q \in 0..(segs - 1) |-> Zeros(N(B))] /\ wp = 0
    /\ win = Zeros(N(B)) /\ ov = Zeros(B)
Seg(h, B, q) == PadTo(SubSeq(h, q * B + 1, Min(Len(h), (q + 1) * B)), N(B))
RECURSIVE Acc(_, _, _, _, _)
Acc(r, w, h, B, slot) ==
    IF slot = -1 THEN Zeros(N(B))
    ELSE LET segs == Cardinality(DOMAIN r)
         IN AddSeq(CircConv(r[slot], Seg(h, B, (w - slot) % segs)), Acc(r, w, h, B, slot - 1))
Accumulate(r, h, B) == Acc(r, wp, h, B, Cardinality(DOMAIN r) - 1)
OlsOut(x, h, B) ==
    LET w == Drop(win, B) \o x
        r == [ring EXCEPT ![wp] = w]
    IN Drop(Accumulate(r, h, B), B)
OlsStep(x, h, B) ==
    LET w == Drop(win, B) \o x
    IN /\ win' = w /\ ring' = [ring EXCEPT ![wp] = w]
       /\ wp' = (wp + 1) % Cardinality(DOMAIN ring) /\ ov' = ov
OlaFull(x, h, B) == Accumulate([ring EXCEPT ![wp] = PadTo(x, N(B))], h, B)
OlaOut(x, h, B) == AddSeq(Take(OlaFull(x, h, B), B), ov)
OlaStep(x, h, B) ==
    /\ ring' = [ring EXCEPT ![wp] = PadTo(x, N(B))]
    /\ ov' = Drop(OlaFull(x, h, B), B)
    /\ wp' = (wp + 1) % Cardinality(DOMAIN ring) /\ win' = win
==========================================================================
