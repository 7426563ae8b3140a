--------------------------- MODULE TraceStream ---------------------------
EXTENDS TraceBase, Stream
Init == TraceInit /\ StreamInit
Act == \/ Is("begin") /\ st' = [o \in Objects |-> Empty]
       \/ Is("filter") /\ Load(Ev.o, Ev.h)
       \/ Is("block")  /\ Ev.y = Response(Ev.o, Ev.x) /\ Ev.guard = TRUE /\ Process(Ev.o, Ev.x)
       \/ Is("copy")   /\ CopyTo(Ev.o, Ev.p)
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED st
==========================================================================
