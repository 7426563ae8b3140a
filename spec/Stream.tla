------------------------------ MODULE Stream ------------------------------
(* A streaming convolver as its user sees it.

   An object holds an impulse response h (h = <<>>: none loaded yet) and
   everything it has been fed since that response was loaded.  Processing
   replaces the samples of a block by the next samples of the linear
   convolution of the whole input with h: no latency, no block boundary is
   audible, no matter how the input was cut into blocks.  Loading another
   response forgets the past; a copy continues independently.               *)
EXTENDS Conv
Objects == {0, 1}
Empty == [h |-> <<>>, sup |-> <<>>, past |-> <<>>]
VARIABLE st
StreamInit == st = [o \in Objects |-> Empty]
Loaded(h) == [h |-> h, sup |-> Support(h), past |-> <<>>]
Load(o, h) == st' = [st EXCEPT ![o] = Loaded(h)]
(* only the last Len(h) - 1 samples of the past can matter *)
Recent(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
Response(o, x) ==
    LET all == st[o].past \o x
        off == Len(st[o].past)
        h   == st[o].h
        sup == st[o].sup
    IN [i \in 1..Len(x) |-> SparseDot(all, h, sup, off + i - 1, 1)]
Process(o, x) ==
    /\ st[o].h # <<>>
    /\ st' = [st EXCEPT ![o].past = Recent(st[o].past \o x, Len(st[o].h) - 1)]
CopyTo(o, p) == st[p].h # <<>> /\ st' = [st EXCEPT ![o] = st[p]]
==========================================================================
