------------------------- MODULE TraceFrameStream -------------------------
EXTENDS TraceBase, FrameStream
Init == TraceInit /\ StreamInit
Act == \/ Is("construct") /\ st' = NoneYet
       \/ Is("prepare") /\ Prepare(Ev.F, Ev.H, Ev.ch)
             (* the effect is told once, with the frame size as its block size *)
             /\ Ev.told = <<<<Ev.F, Ev.ch, Ev.rate>>>>
       \/ Is("block") /\ (TRUE = (Ev.y = Output(Ev.x) /\ Ev.frames = FramesDue(Ev.x) /\ Ev.guard)) /\ Feed(Ev.x)
       \/ Is("reset") /\ Ev.resets = 1 /\ Ev.frames = 0 /\ Reset
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED st
==========================================================================
