----------------------------- MODULE TraceCli -----------------------------
EXTENDS TraceBase, Cli
Init == TraceInit /\ st = Nothing
(* y: ten thousandths of full scale (half precision inside: 0.3 % of the peak) *)
Tol == 30
Shows(y, f) ==
    /\ y.rate = f.rate /\ y.len = f.len /\ Len(y.x) = Len(f.x)
    /\ \E pk \in {Peak(f)} :
         \A c \in 1..Len(f.x) :
            /\ Len(y.x[c]) = Len(f.x[c])
            /\ \A k \in 1..Len(f.x[c]) : y.x[c][k][1] = f.x[c][k][1] /\ Abs((y.x[c][k][2] * pk) - (10000 * f.x[c][k][2])) <= Tol * pk
RunOk(e) ==
    IF CanRun(e.a, e.b, e.o)
    THEN /\ e.rc = 0 /\ e.others /\ e.y.kind = "audio"
         /\ \E r \in {Result(e.a, e.b)} : Shows(e.y, r)
    ELSE e.rc # 0 /\ e.others /\ ~e.touched
Act == \/ Is("begin") /\ st' = Nothing
       \/ Is("put") /\ Put(Ev.f, IF Ev.kind = "audio" THEN File(Ev.rate, Ev.len, Ev.x) ELSE IF Ev.kind = "none" THEN NoFile ELSE Damaged)
       \/ Is("run") /\ (TRUE = RunOk(Ev)) /\ Run(Ev.a, Ev.b, Ev.o)
       \/ Is("full") /\ Ev.rc # 0 /\ Ev.others /\ RunFull(Ev.a, Ev.b, Ev.o)
       \/ Is("misuse") /\ Ev.rc # 0 /\ Ev.others /\ Misuse
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED st
==========================================================================
