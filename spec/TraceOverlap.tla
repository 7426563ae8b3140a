--------------------------- MODULE TraceOverlap ---------------------------
EXTENDS TraceBase, Overlap
Init == TraceInit /\ ov = [kind |-> "none", b |-> 1, f |-> 1, mem |-> <<>>]
Act == \/ /\ Is("new") /\ OvNew(Ev.kind, Ev.b, Ev.f)
          /\ Ev.bs = Ev.b /\ Ev.fs = Ev.f /\ Ev.ts = TransformSize(FullSize(Ev.b, Ev.f))
       \/ /\ Is("step") /\ Ev.bins = (OvSize \div 2) + 1
          /\ Ev.calls = 1 /\ Ev.guard = TRUE
          /\ Ev.y = OvOut(Ev.x, Ev.h) /\ OvStep(Ev.x, Ev.h)
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED ov
==========================================================================
