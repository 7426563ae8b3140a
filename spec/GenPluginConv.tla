--------------------------- MODULE GenPluginConv ---------------------------
(* Histories of the two convolution effects.  header (kind: 0 dense, 1 plain;
   log2 of the frame), then (op, a, b)*:  1 = load an impulse of kind a, length
   kind b;  2 = prepare for a channels, maximum block kind b;  3 = feed a block
   of a percent of the maximum, b: in place;  4 = reset;  5 = load something
   unreadable;  6 = prepare exactly as before.                                                             *)
EXTENDS PluginConv, TLC
CONSTANT Length
VARIABLE hist
Init == st = Nothing /\ hist = <<>>
Add(a, b, c) == hist' = hist \o <<a, b, c>>
Zero == [c \in 1..st.ch |-> <<0>>]
LoadStep == \E a \in {RandomElement(0..4)}, b \in {RandomElement(0..5)} : PcLoad(<<<<10>>, <<0>>, <<0>>>>, 2) /\ Add(1, a, b)
PrepStep == \E a \in {RandomElement(1..2)}, b \in {RandomElement(0..5)} : PcPrepare(1, a, 2) /\ Add(2, a, b)
(* a parameter, because TLC evaluates constant definitions only once *)
Percent(any) == IF RandomElement(1..3) = 1 THEN RandomElement({1, 10, 33, 50, 75}) ELSE 100
FeedStep == \E a \in {Percent(hist)}, b \in {RandomElement(0..1)} :
               /\ st' = [st EXCEPT !.past = [c \in 1..st.ch |-> <<>>]]
               /\ Add(3, a, b)
ResetStep == PcReset /\ Add(4, 0, 0)
AgainStep == PcPrepare(1, st.ch, 2) /\ Add(6, 0, 0)
BadStep == UNCHANGED st /\ Add(5, 0, 0)
Next == IF hist = <<>>
        THEN \E k \in {RandomElement(0..1)} : \E o \in {RandomElement(1..4)} :
                /\ st' = Constructed(IF k = 0 THEN "dense" ELSE "plain", 2^o) /\ hist' = <<k, o>>
        ELSE IF Len(hist) < 2 + 3 * Length
        THEN IF ~st.ready THEN \E w \in {RandomElement(1..3)} : IF w = 1 THEN LoadStep ELSE PrepStep
             ELSE IF st.imp = <<>> /\ RandomElement(1..2) = 1 THEN LoadStep
             ELSE \E w \in {RandomElement(1..14)} :
                    CASE w = 1 -> LoadStep [] w \in {2, 6} -> PrepStep [] w = 3 -> ResetStep [] w = 4 -> BadStep [] w = 5 -> AgainStep [] OTHER -> FeedStep
        ELSE PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ st' = Nothing
==========================================================================
