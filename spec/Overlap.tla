------------------------------ MODULE Overlap ------------------------------
(* overlap_add / overlap_save processors as their user sees them: blocks of B
   samples, a callback that multiplies the spectrum of the current block by the
   transform of some filter of at most F taps (it may be another one for every
   block).
     add:  every block is convolved with its own filter, whole, tails overlap
     save: every output sample is the newest filter applied to the last samples *)
EXTENDS Conv
VARIABLE ov        \* [kind, b, f, mem]: mem = pending tail (add) or past input (save)
OvNew(kind, b, f) == ov' = [kind |-> kind, b |-> b, f |-> f, mem |-> <<>>]
OvSize == TransformSize(FullSize(ov.b, ov.f))
OvOut(x, h) ==
    IF ov.kind = "add"
    THEN Take(AddSeq(FullConvS(x, h), ov.mem), ov.b)
    ELSE LET all == ov.mem \o x
             sup == Support(h)
         IN [i \in 1..ov.b |-> SparseDot(all, h, sup, Len(ov.mem) + i - 1, 1)]
OvStep(x, h) ==
    /\ Len(x) = ov.b /\ Len(h) <= ov.f
    /\ ov' = [ov EXCEPT !.mem =
          IF ov.kind = "add" THEN Drop(AddSeq(FullConvS(x, h), ov.mem), ov.b)
          ELSE LET all == ov.mem \o x IN SubSeq(all, Max(1, Len(all) - ov.f + 2), Len(all))]
==========================================================================
