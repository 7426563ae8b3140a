--------------------------- MODULE TraceFrames ---------------------------
EXTENDS TraceBase, Frames
VARIABLES p, x     \* the plan's options, the signal of the current call
Init == TraceInit /\ p = [frame |-> 1, overlap |-> 0, tsize |-> 1, win |-> 0] /\ x = <<>>
Close(g, w, v) == Abs(g - (w * v)) <= Abs(v) + 30
Act == \/ /\ Is("plan") /\ p' = [frame |-> Ev.frame, overlap |-> Ev.overlap, tsize |-> Ev.tsize, win |-> Ev.win] /\ x' = <<>>
       \/ /\ Is("call") /\ p' = p /\ x' = Ev.x
          /\ Ev.dims = <<Len(Ev.x), NumFrames(p, Len(Ev.x[1])), NumBins(p)>> /\ Ev.guard = TRUE
       \/ /\ Is("frame") /\ UNCHANGED <<p, x>>
          /\ Ev.got = FrameData(p, x[Ev.c + 1], Ev.f)
       \/ /\ Is("wframe") /\ UNCHANGED <<p, x>>    \* real-valued window w, both scaled by 10000
          /\ Len(Ev.got) = FrameN(p) /\ Len(Ev.w) = FrameN(p)
          /\ \A k \in 1..FrameN(p) : Close(Ev.got[k], Ev.w[k], Sample(p, x[Ev.c + 1], Ev.f, k - 1))
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED <<p, x>>
==========================================================================
