------------------------------ MODULE MCDft ------------------------------
(* The factorisations used by the plans, stage by stage, on an impulse of
   every position: in-place decimation in time (digit reversal first), in-place
   decimation in frequency (digit reversal last) and the self-sorting Stockham
   form, for each radix.  A slot holds None (zero) or e, meaning w_n^e.       *)
EXTENDS Dft, DigitRev
CONSTANT MaxSize
None == -1
VARIABLES algo, radix, order, dir, pos, stage, x
vars == <<algo, radix, order, dir, pos, stage, x>>
N == radix ^ order
Impulse(n, p) == [i \in 0..(n - 1) |-> IF i = p THEN 0 ELSE None]
Init == /\ algo \in {"dit", "dif", "stockham"} /\ radix \in {2, 3, 4, 5, 8} /\ order \in 0..6
        /\ radix ^ order <= MaxSize /\ dir \in {-1, 1}
        /\ pos \in 0..(radix ^ order - 1)
        /\ stage = 0
        /\ x = Impulse(radix ^ order, IF algo = "dit" THEN Rev(radix, order, pos) ELSE pos)
(* the only non-zero input of a butterfly, -1 if there is none *)
Only(ins) == IF \E k \in 0..(radix - 1) : ins[k] # None
             THEN CHOOSE k \in 0..(radix - 1) : ins[k] # None ELSE -1
Lone(ins) == \A j, k \in 0..(radix - 1) : ins[j] # None /\ ins[k] # None => j = k
(* output j: tw + w_r^(j k) * input *)
Out(ins, j, tw) == LET k == Only(ins) IN
    IF k = -1 THEN None ELSE (ins[k] + tw + (dir * j * k * (N \div radix))) % N
DitStage ==
    LET l == radix ^ (stage + 1)  m == l \div radix IN
    x' = [i \in 0..(N - 1) |->
            LET b == (i \div l) * l  r == i - b  p == r % m  j == r \div m
                ins == [k \in 0..(radix - 1) |-> x[b + p + (k * m)]]
            IN  Out(ins, j, dir * p * Only(ins) * (N \div l))]
DifStage ==
    LET l == radix ^ (order - stage)  m == l \div radix IN
    x' = [i \in 0..(N - 1) |->
            LET b == (i \div l) * l  r == i - b  p == r % m  j == r \div m
                ins == [k \in 0..(radix - 1) |-> x[b + p + (k * m)]]
            IN  Out(ins, j, dir * p * j * (N \div l))]
StockhamStage ==
    LET l == radix ^ (order - stage)  m == l \div radix  s == radix ^ stage IN
    x' = [i \in 0..(N - 1) |->
            LET q == i % s  t == i \div s  j == t % radix  p == t \div radix
                ins == [k \in 0..(radix - 1) |-> x[q + (s * (p + (m * k)))]]
            IN  Out(ins, j, dir * p * j * (N \div l))]
Next == /\ stage < order /\ stage' = stage + 1 /\ UNCHANGED <<algo, radix, order, dir, pos>>
        /\ CASE algo = "dit" -> DitStage [] algo = "dif" -> DifStage [] OTHER -> StockhamStage
Sorted(k) == IF algo = "dif" THEN x[Rev(radix, order, k)] ELSE x[k]
IsDft == stage = order => \A k \in 0..(N - 1) : 4 * Sorted(k) = Root(N, dir, pos, k, 0)
==========================================================================
