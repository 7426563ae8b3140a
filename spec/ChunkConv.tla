---------------------------- MODULE ChunkConv ----------------------------
(* The chunked overlap-add convolver as the library does it (upola_v2): samples
   are collected in a window of one block; every call transforms the window as
   far as it is filled, so that the samples already in hand are answered at
   once; the delayed segments are accumulated once per block, when the window
   is empty; the ring runs backwards.                                        *)
EXTENDS Conv, FiniteSets
VARIABLES cpos, ccur, cring, cwin, ctmp, cov
CN(B) == 2 * B
CInit(B, segs) == /\ cpos = 0 /\ ccur = 0 /\ cring = [q \in 0..(segs - 1) |-> Zeros(CN(B))]
                  /\ cwin = Zeros(CN(B)) /\ ctmp = Zeros(CN(B)) /\ cov = Zeros(B)
CSeg(h, B, q) == PadTo(SubSeq(h, q * B + 1, Min(Len(h), (q + 1) * B)), CN(B))
RECURSIVE Delayed(_, _, _, _, _)
Delayed(r, cur, h, B, q) ==
    LET segs == Cardinality(DOMAIN r)
    IN IF q = segs THEN Zeros(CN(B))
       ELSE AddSeq(CircConv(r[(cur + q) % segs], CSeg(h, B, q)), Delayed(r, cur, h, B, q + 1))
State == [pos |-> cpos, cur |-> ccur, ring |-> cring, win |-> cwin, tmp |-> ctmp, ov |-> cov, y |-> <<>>]
(* consume as many samples as fit into the current block *)
Part(z, x, h, B) ==
    LET m    == Min(Len(x), B - z.pos)
        segs == Cardinality(DOMAIN z.ring)
        w    == [i \in 1..CN(B) |-> IF i > z.pos /\ i <= z.pos + m THEN x[i - z.pos] ELSE z.win[i]]
        r    == [z.ring EXCEPT ![z.cur] = w]
        t    == IF z.pos = 0 THEN Delayed(r, z.cur, h, B, 1) ELSE z.tmp
        o    == AddSeq(t, CircConv(w, CSeg(h, B, 0)))
        y    == [i \in 1..m |-> o[z.pos + i] + z.ov[z.pos + i]]
        full == z.pos + m = B
    IN [pos |-> IF full THEN 0 ELSE z.pos + m,
        cur |-> IF full THEN (IF z.cur > 0 THEN z.cur - 1 ELSE segs - 1) ELSE z.cur,
        ring |-> r, win |-> IF full THEN Zeros(CN(B)) ELSE w, tmp |-> t,
        ov |-> IF full THEN Drop(o, B) ELSE z.ov, y |-> z.y \o y]
RECURSIVE Run(_, _, _, _)
Run(z, x, h, B) == IF x = <<>> THEN z ELSE Run(Part(z, x, h, B), Drop(x, Min(Len(x), B - z.pos)), h, B)
ChunkOut(x, h, B) == Run(State, x, h, B).y
ChunkStep(x, h, B) == LET z == Run(State, x, h, B) IN
    cpos' = z.pos /\ ccur' = z.cur /\ cring' = z.ring /\ cwin' = z.win /\ ctmp' = z.tmp /\ cov' = z.ov
==========================================================================
