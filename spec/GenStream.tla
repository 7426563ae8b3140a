---------------------------- MODULE GenStream ----------------------------
(* Histories of two streaming convolver objects: (op, object, a, b)*
   op 1 = load a response of a segments, kind b;  2 = process a block/chunk of
   kind b, a = extra samples in the chunk (percent of the block);  3 = the
   object becomes a copy of the other one.                                  *)
EXTENDS Stream, TLC
CONSTANTS Length, MaxSegments
VARIABLE hist
Init == StreamInit /\ hist = <<>>
LoadStep(o) == \E a \in {RandomElement(1..MaxSegments)}, b \in {RandomElement(0..4)} :
                  Load(o, <<a>>) /\ hist' = hist \o <<1, o, a, b>>
ProcStep(o) == \E a \in {RandomElement({0, 0, 1, 7, 25, 50, 75, 99, 100, 101, 150, 230, 310})}, b \in {RandomElement(0..4)} :
                  Process(o, <<>>) /\ hist' = hist \o <<2, o, a, b>>
CopyStep(o) == CopyTo(o, 1 - o) /\ hist' = hist \o <<3, o, 0, 0>>
(* processing is weighted: most steps feed samples *)
Next == IF Len(hist) < 4 * Length
        THEN IF hist = <<>> THEN LoadStep(0)
             ELSE \E o \in {RandomElement({0, 0, 0, 1})} :
                     IF st[o].h = <<>> THEN \/ LoadStep(o) \/ CopyStep(o)
                     ELSE \E w \in {RandomElement(1..12)} :
                            IF w = 1 THEN LoadStep(o) ELSE IF w = 2 /\ st[1 - o].h # <<>> THEN CopyStep(o) ELSE ProcStep(o)
        ELSE PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ st' = [o \in Objects |-> Empty]
==========================================================================
