---------------------------- MODULE GenPlugin ----------------------------
(* Histories of a host and the plugin: (op, a, b)*
   1 = impulse file: kind a (5: missing, 6: unreadable), length kind b;
   2 = prepare for a channels, block kind b;  3 = parameter a to b quarters;
   4 = a block of a percent;  5 = release;  6 / 7 / 8 = save to / restore from /
   reopen from slot a;  9 = listener a added (b = 1) or removed;  10 = restore
   garbage;  11 = the message loop runs.                                     *)
EXTENDS Plugin, TLC
CONSTANT Length
VARIABLE hist
Init == st = Nothing /\ p = Fresh([k \in 0..2 |-> Default], NoFile) /\ hist = <<>>
Add(a, b, c) == hist' = hist \o <<a, b, c>>
(* a parameter, because TLC evaluates constant definitions only once *)
Percent(any) == IF RandomElement(1..3) = 1 THEN RandomElement({1, 33, 50, 75}) ELSE 100
FileStep == \E a \in {RandomElement(0..6)}, b \in {RandomElement(0..5)} : PgFile(NoFile) /\ Add(1, a, b)
PrepStep == \E a \in {RandomElement(1..2)}, b \in {RandomElement(0..5)} : PgPrepare(8, 2, a, 2) /\ Add(2, a, b)
SetStep == \E a \in {RandomElement(0..2)}, b \in {RandomElement(0..4)} : Ignored /\ Add(3, a, b)
FeedStep == \E a \in {Percent(hist)} : Ignored /\ Add(4, a, 0)
RelStep == Ignored /\ Add(5, 0, 0)
SaveStep == \E a \in {RandomElement(0..2)} : PgSave(a) /\ Add(6, a, 0)
LoadStep == \E a \in {RandomElement(0..2)} : PgRestore(a) /\ Add(7, a, 0)
OpenStep == \E a \in {RandomElement(0..2)} : p' = Fresh(p.slots, p.file) /\ st' = Nothing /\ Add(8, a, 0)
EarStep == \E a \in {RandomElement(1..2)}, b \in {RandomElement(0..1)} : PgListen(a, b = 1) /\ Add(9, a, b)
BadStep == Ignored /\ Add(10, 0, 0)
IdleStep == Ignored /\ Add(11, 0, 0)
Next == IF Len(hist) >= 3 * Length
        THEN PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ p' = Fresh([k \in 0..2 |-> Default], NoFile) /\ st' = Nothing
        ELSE IF ~st.ready /\ RandomElement(1..3) > 1
        THEN IF RandomElement(1..2) = 1 THEN FileStep ELSE PrepStep
        ELSE \E w \in {RandomElement(1..24)} :
               CASE w = 1 -> FileStep [] w \in {2, 3} -> PrepStep [] w \in 4..7 -> SetStep [] w = 8 -> RelStep
                 [] w = 9 -> SaveStep [] w = 10 -> LoadStep [] w = 11 -> OpenStep [] w = 12 -> EarStep
                 [] w = 13 -> BadStep [] w = 14 -> IdleStep [] OTHER -> FeedStep
==========================================================================
