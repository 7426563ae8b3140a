--------------------------- MODULE TraceDigitRev ---------------------------
EXTENDS TraceBase, DigitRev
Init == TraceInit
Allowed == Ev.guard = TRUE /\ Ev.after = Reordered(Ev.radix, Ev.order, Ev.before)
(* a vector that held its own indices, looked at in a few places *)
AllowedAt == Ev.guard = TRUE /\ Ev.got = [i \in 1..Len(Ev.at) |-> Rev(Ev.radix, Ev.order, Ev.at[i])]
Next == \/ Is("rev") /\ TRUE = Allowed /\ Consume
        \/ Is("revat") /\ TRUE = AllowedAt /\ Consume
        \/ Done
==========================================================================
