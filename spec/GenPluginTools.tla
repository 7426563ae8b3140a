-------------------------- MODULE GenPluginTools --------------------------
(* Histories of the plugin's files: (op, f, a, b)*
   1 = write f: channels a, length kind b;  2 = load f;  3 = load f at rate
   kind a;  4 = remove (a = 0) or damage f.                                  *)
EXTENDS PluginTools, TLC
CONSTANT Steps
VARIABLE hist
Init == st = Nothing /\ hist = <<>>
Add(o, f, a, b) == hist' = hist \o <<o, f, a, b>>
WriteStep == \E f \in {RandomElement(Names)}, a \in {RandomElement(1..3)}, b \in {RandomElement(0..6)} :
                Put(f, Recording(1, <<>>)) /\ Add(1, f, a, b)
LoadStep == \E f \in {RandomElement(Names)} : UNCHANGED st /\ Add(2, f, 0, 0)
RateStep == \E f \in {RandomElement(Names)}, a \in {RandomElement(0..4)} : UNCHANGED st /\ Add(3, f, a, 0)
DropStep == \E f \in {RandomElement(Names)}, a \in {RandomElement(0..2)} : Put(f, IF a = 0 THEN NoFile ELSE Damaged) /\ Add(4, f, a, 0)
Next == IF Len(hist) < 4 * Steps
        THEN \E w \in {RandomElement(1..10)} :
               IF w <= 4 THEN WriteStep ELSE IF w <= 6 THEN LoadStep ELSE IF w <= 8 THEN RateStep ELSE DropStep
        ELSE PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ st' = Nothing
==========================================================================
