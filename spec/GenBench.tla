----------------------------- MODULE GenBench -----------------------------
(* Histories of a user at the editor: (op, a, b)*
   1 = prepare with rate a, block b;  2 / 3 = choose signal / impulse a (0:
   cancelled, 8: missing);  4 = setting a to b;  5 = render with the engines of
   the mask a;  6 = close while the engines of the mask a wait, b have begun.  *)
EXTENDS Bench, TLC
CONSTANT Length
VARIABLE hist
Init == b = Fresh /\ hist = <<>>
Add(x, y, z) == hist' = hist \o <<x, y, z>>
(* parameters, because TLC evaluates constant definitions only once *)
One(any) == 2 ^ RandomElement(0..8)
Mask(any) == IF RandomElement(1..4) = 1 THEN 511 ELSE RandomElement(0..1023)
PrepStep == \E x \in {RandomElement(0..1)}, y \in {RandomElement(0..5)} : Prepare(8000 * (x + 1), y, 2) /\ Add(1, x, y)
SigStep == \E x \in {IF RandomElement(1..5) = 1 THEN RandomElement({0, 7, 8}) ELSE RandomElement(Signals)} : ChooseSignal(x) /\ Add(2, x, 0)
ImpStep == \E x \in {IF RandomElement(1..5) = 1 THEN RandomElement({0, 7, 8}) ELSE RandomElement(Impulses)} : ChooseImpulse(x) /\ Add(3, x, 0)
TurnStep == \E x \in {RandomElement({0, 0, 0, 1, 2})} : \E y \in {RandomElement(IF x = 0 THEN 0..7 ELSE IF x = 1 THEN 0..1 ELSE 0..25)} : UNCHANGED b /\ Add(4, x, y)
RenderStep == \E x \in {IF RandomElement(1..3) = 1 THEN One(hist) ELSE Mask(hist)} : Render /\ Add(5, x, 0)
CloseStep == \E x \in {RandomElement({0, 1, 384, 511, 32, 64})}, y \in {RandomElement(0..2)} : b' = Editor(b) /\ Add(6, x, y)
Next == IF Len(hist) >= 3 * Length
        THEN PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ b' = Fresh
        ELSE IF Rate(b) = 44100 /\ RandomElement(1..2) = 1 THEN PrepStep
        ELSE IF (b.sig = 0 \/ b.imp = 0) /\ RandomElement(1..3) > 1 THEN (IF b.sig = 0 THEN SigStep ELSE ImpStep)
        ELSE \E k \in {RandomElement(1..20)} :
               CASE k \in {1, 2} -> PrepStep [] k \in {3, 4} -> SigStep [] k \in {5, 6, 7} -> ImpStep
                 [] k \in 8..13 -> TurnStep [] k = 14 -> CloseStep [] OTHER -> RenderStep
===========================================================================
