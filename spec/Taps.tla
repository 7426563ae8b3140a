------------------------------- MODULE Taps -------------------------------
(* Signals that are silent but for a few samples: a channel is a sequence of
   <<position, value>> in order of position.                                 *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE PairSum(_, _, _, _, _)
(* the sum of p[i] q[j] over the pairs of positions that add up to t *)
PairSum(p, q, t, i, j) ==
    IF i > Len(p) THEN 0
    ELSE IF j > Len(q) THEN PairSum(p, q, t, i + 1, 1)
    ELSE (IF p[i][1] + q[j][1] = t THEN p[i][2] * q[j][2] ELSE 0) + PairSum(p, q, t, i, j + 1)
Reached(p, q, len) == {t \in {p[i][1] + q[j][1] : i \in 1..Len(p), j \in 1..Len(q)} : t < len}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE v \in S : \A w \in S : v <= w IN <<m>> \o Ascending(S \ {m})
Channel(p, q, len) ==
    LET ts == Ascending({t \in Reached(p, q, len) : PairSum(p, q, t, 1, 1) # 0})
    IN [k \in 1..Len(ts) |-> <<ts[k], PairSum(p, q, ts[k], 1, 1)>>]
Values(f) == UNION {{Abs(f.x[c][k][2]) : k \in 1..Len(f.x[c])} : c \in 1..Len(f.x)}
Peak(f) == IF Values(f) = {} THEN 0 ELSE CHOOSE v \in Values(f) : \A w \in Values(f) : w <= v
==========================================================================
