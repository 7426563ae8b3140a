------------------------------ MODULE MCCli ------------------------------
(* The tool's algorithm (blocks of B samples, overlap-add, common peak) against
   the specification's result, and the isolation of failed runs.             *)
EXTENDS Cli
CONSTANTS B, MaxLen, Vals
VARIABLES last
Zeros(n) == [i \in 1..n |-> 0]
At(p, t) == LET S == {k \in 1..Len(p) : p[k][1] = t} IN IF S = {} THEN 0 ELSE p[CHOOSE k \in S : TRUE][2]
(* blocks: the input of block m is zero padded, filtered, the tail carried on *)
RECURSIVE Blocks(_, _, _, _, _)
Blocks(p, q, len, m, carry) ==
    IF m * B >= len THEN [i \in 0..(len - 1) |-> carry[i]]
    ELSE Blocks(p, q, len, m + 1,
           [t \in DOMAIN carry |-> carry[t] +
              LET Term(i) == IF i < len /\ t - i >= 0 THEN At(p, i) * At(q, t - i) ELSE 0
                  S[i \in (m * B - 1)..((m + 1) * B - 1)] == IF i = m * B - 1 THEN 0 ELSE S[i - 1] + Term(i)
              IN S[(m + 1) * B - 1]])
Tool(p, q, len) == Blocks(p, q, len, 0, [t \in 0..(len - 1) |-> 0])
Signals == UNION {[1..n -> {<<t, v>> : t \in 0..(MaxLen - 1), v \in Vals}] : n \in 0..2}
Ordered(p) == \A i, j \in 1..Len(p) : i < j => p[i][1] < p[j][1]
Fits(p, len) == \A i \in 1..Len(p) : p[i][1] < len
Init == st = Nothing /\ last = "init"
Write == \E f \in 1..2, len \in 0..MaxLen, p \in Signals :
           /\ Ordered(p) /\ Fits(p, len)
           /\ Put(f, File(1, len, <<p>>)) /\ last' = "put"
Lose == \E f \in 1..2 : Put(f, Damaged) /\ last' = "put"
Exec == \E a, b \in {1, 2, 5}, o \in {3, 6} :
           Run(a, b, o) /\ last' = IF CanRun(a, b, o) THEN "ok" ELSE "failed"
ExecFull == \E a, b \in {1, 2, 5} : RunFull(a, b, 3) /\ last' = IF CanRun(a, b, 3) THEN "full" ELSE "failed"
Next == Write \/ Lose \/ Exec \/ ExecFull
Refines == last = "ok" =>
    \E a, b \in 1..2 : Usable(a) /\ Usable(b) /\ st[3] = Result(a, b) /\
        LET y == Tool(st[a].x[1], st[b].x[1], st[a].len)
        IN \A t \in 0..(st[a].len - 1) : At(st[3].x[1], t) = y[t]
OnlyOutput == [][last' \in {"ok", "failed", "full"} => \A f \in {1, 2, 4} : st'[f] = st[f]]_<<st, last>>
FailedRunsChangeNothing == [][last' = "failed" => st' = st]_<<st, last>>
NoStoredZeros == \A f \in Names : st[f].kind = "audio" => \A c \in 1..Len(st[f].x) : \A k \in 1..Len(st[f].x[c]) : st[f].x[c][k][2] # 0
Bound == st[4] = NoFile
==========================================================================
