--------------------------- MODULE TracePlugin ---------------------------
EXTENDS TraceBase, Plugin
Init == TraceInit /\ st = Nothing /\ p = Fresh([k \in 0..2 |-> Default], NoFile)
Read == Ev.vals = Plain(p'.knob)
File == [there |-> Ev.there, h |-> Ev.h, unit |-> Ev.unit]
Told == {<<e, p'.spec>> : e \in p.ears}
Heard1 == Len(Ev.told) = Cardinality(p.ears) /\ {<<Ev.told[k][1], <<Ev.told[k][2], Ev.told[k][3], Ev.told[k][4]>>>> : k \in 1..Len(Ev.told)} = Told
Act == \/ Is("plugin") /\ PgNew([k \in 0..2 |-> Default], NoFile) /\ Read /\ Ev.spec = p'.spec
       \/ Is("reopen") /\ p' = [Fresh(p.slots, p.file) EXCEPT !.knob = p.slots[Ev.slot]] /\ st' = Nothing /\ Read
       \/ Is("file") /\ PgFile(File)
       \/ Is("set") /\ PgSet(Ev.which, Ev.k) /\ Read
       \/ Is("prepare") /\ PgPrepare(Ev.rate, Ev.B, Ev.ch, Ev.unit) /\ (TRUE = Heard1) /\ Ev.spec = p'.spec /\ Read
       \/ Is("block") /\ PgBlock(Ev.x, Ev.y)
       \/ Is("release") /\ PgRelease /\ Read
       \/ Is("save") /\ PgSave(Ev.slot) /\ Read
       \/ Is("restore") /\ PgRestore(Ev.slot) /\ Read
       \/ Is("garbage") /\ Ignored /\ Read
       \/ Is("listen") /\ PgListen(Ev.ear, Ev.add)
       \/ Is("layout") /\ Ev.ok = Supported(Ev.in, Ev.out) /\ Ignored
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED <<p, st>>
==========================================================================
