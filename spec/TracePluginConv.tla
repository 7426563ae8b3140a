-------------------------- MODULE TracePluginConv --------------------------
EXTENDS TraceBase, PluginConv
Init == TraceInit /\ st = Nothing
Scaled(h) == LoudestOf(h) \in {0, 100}
Act == \/ Is("construct") /\ st' = Constructed(Ev.kind, Ev.F)
       \/ Is("load") /\ Ev.readable /\ PcLoad(Ev.h, Ev.unit)
       \/ Is("load") /\ ~Ev.readable /\ UNCHANGED st
       \/ Is("prepare") /\ PcPrepare(Ev.B, Ev.ch, Ev.unit)
       \/ Is("block") /\ PcBlock(Ev.x, Ev.y)
       \/ Is("reset") /\ PcReset
       \/ Is("offline") /\ Scaled(Ev.h) /\ (TRUE = (Ev.y = OfflineDense(Ev.x, Ev.h) /\ Ev.guard)) /\ UNCHANGED st
       \/ Is("sparse") /\ Scaled(Ev.h) /\ (TRUE = (Ev.y = OfflineSparse(Ev.x, Ev.h, Ev.B, Ev.mask) /\ Ev.guard)) /\ UNCHANGED st
       \/ Is("level") /\ (TRUE = (Ev.y = OfflineLevel(Ev.x, Ev.h, Ev.rate, Ev.thr, Ev.lo) /\ Ev.guard)) /\ UNCHANGED st
       \/ Is("segs") /\ Scaled(Ev.h) /\ (TRUE = (Ev.y = OfflineSegs(Ev.x, Ev.h, Ev.rate, Ev.thr, Ev.lo) /\ Ev.guard)) /\ UNCHANGED st
       \/ Is("bands") /\ (TRUE = (Ev.y = OfflineBands(Ev.x, Ev.h, Ev.B, Ev.rate, Ev.thr, Ev.lo) /\ Ev.guard)) /\ UNCHANGED st
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED st
==========================================================================
