------------------------------ MODULE GenCli ------------------------------
(* Histories of the command-line tool: (op, a, b, c)*
   1 = write file a: layout kind b, length kind c;  2 = run with names a b c
   (5: a name that never exists, 6: an output that cannot be written);
   3 = remove (b = 0) or damage file a;  4 = wrong number of arguments (a).   *)
EXTENDS Cli, TLC
CONSTANT Length
VARIABLE hist
Init == st = Nothing /\ hist = <<>>
Add(o, a, b, c) == hist' = hist \o <<o, a, b, c>>
Rate(b) == IF b >= 8 THEN 2 ELSE 1
PutStep == \E f \in {RandomElement(Names)}, b \in {RandomElement({0, 1, 1, 1, 1, 2, 4, 8, 9, 10, 10})}, c \in {RandomElement(0..8)} :
             /\ Put(f, File(Rate(b), IF c = 8 THEN 0 ELSE 1, [k \in 1..((b % 3) + 1) |-> <<>>]))
             /\ Add(1, f, b, c)
RunStep == \E a \in {RandomElement(Names \cup {5})}, b \in {RandomElement(Names \cup {5})}, o \in {RandomElement(Names \cup {6})} :
             Run(a, b, o) /\ Add(2, a, b, o)
GoodStep == \E p \in {{q \in Names \X Names : CanRun(q[1], q[2], 1)}} :
              IF p = {} THEN PutStep
              ELSE \E q \in {RandomElement(p)}, o \in {RandomElement(Names)} : Run(q[1], q[2], o) /\ Add(2, q[1], q[2], o)
(* two usable files that differ in exactly one respect *)
Odd(q) == /\ Usable(q[1]) /\ Usable(q[2]) /\ q[1] # q[2]
          /\ (Len(st[q[1]].x) = Len(st[q[2]].x)) # (st[q[1]].rate = st[q[2]].rate)
OddStep == \E p \in {{q \in Names \X Names : Odd(q)}} :
              IF p = {} THEN PutStep
              ELSE \E q \in {RandomElement(p)}, o \in {RandomElement(Names)} : Run(q[1], q[2], o) /\ Add(2, q[1], q[2], o)
DropStep == \E f \in {RandomElement(Names)}, b \in {RandomElement(0..1)} : Put(f, IF b = 0 THEN NoFile ELSE Damaged) /\ Add(3, f, b, 0)
BadStep == \E a \in {RandomElement({1, 2, 3, 5, 6})} : Misuse /\ Add(4, a, 0, 0)
Next == IF Len(hist) < 4 * Length
        THEN \E w \in {RandomElement(1..13)} :
                CASE w <= 4 -> PutStep [] w = 5 -> RunStep [] w = 6 -> BadStep [] w = 7 -> DropStep [] w = 8 -> OddStep [] OTHER -> GoodStep
        ELSE PrintT(<<"SCENARIO", hist>>) /\ hist' = <<>> /\ st' = Nothing
==========================================================================
