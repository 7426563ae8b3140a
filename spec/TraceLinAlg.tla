--------------------------- MODULE TraceLinAlg ---------------------------
EXTENDS TraceBase, LinAlg
Init == TraceInit /\ env = <<>>
Logged == env' = Ev.env /\ Ev.guard = TRUE
Act == \/ Is("begin") /\ Alloc(Ev.env)
       \/ Is("add")   /\ DoAdd(Ev.x, Ev.y, Ev.o)
       \/ Is("mul")   /\ DoMul(Ev.x, Ev.y, Ev.o)
       \/ Is("scale") /\ DoScale(Ev.a, Ev.o)
       \/ Is("fill")  /\ DoFill(Ev.a, Ev.o)
       \/ Is("copy")  /\ DoCopy(Ev.x, Ev.o)
       \/ Is("madd")  /\ DoMulAdd(Ev.x, Ev.y, Ev.z, Ev.o)
Next == \/ Act /\ Logged /\ Consume
        \/ Done /\ UNCHANGED env
==========================================================================
