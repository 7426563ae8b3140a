-------------------------- MODULE GenFrameStream --------------------------
(* Histories of the block-size adapter.  header (log2 F, log2 F/H), then
   (op, a, b)*:  1 = prepare for channels a, maximum block kind b;  2 = feed a
   block of kind a (percent of the maximum), flag b: in place;  3 = reset;
   4 = feed b single-sample blocks.                                         *)
EXTENDS FrameStream, TLC
CONSTANT Length
VARIABLE hist
Orders == 0..4
Blank(o, d) == hist' = <<o, d>> /\ st' = NoneYet
PrepStep == \E c \in {RandomElement(1..3)}, b \in {RandomElement(0..9)} :
               Prepare(1, 1, c) /\ hist' = hist \o <<1, c, b>>
FeedStep == \E a \in {RandomElement({0, 1, 5, 10, 25, 33, 50, 66, 75, 90, 99, 100, 100, 100})}, b \in {RandomElement(0..1)} :
               Feed([c \in 1..st.ch |-> <<0>>]) /\ hist' = hist \o <<2, a, b>>
ResetStep == Reset /\ hist' = hist \o <<3, 0, 0>>
TickStep == \E b \in {RandomElement(1..5)} : Feed([c \in 1..st.ch |-> <<0>>]) /\ hist' = hist \o <<4, 0, b>>
Init == StreamInit /\ hist = <<>>
Next == IF hist = <<>> THEN \E o \in {RandomElement(Orders)} : \E d \in {RandomElement(0..o)} : Blank(o, d)
        ELSE IF Len(hist) < 2 + 3 * Length
        THEN IF st.ch = 0 THEN PrepStep
             ELSE \E w \in {RandomElement(1..16)} :
                    IF w = 1 THEN PrepStep ELSE IF w = 2 THEN ResetStep ELSE IF w <= 5 THEN TickStep ELSE FeedStep
        ELSE PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ st' = NoneYet
==========================================================================
