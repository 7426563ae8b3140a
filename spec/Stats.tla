------------------------------ MODULE Stats ------------------------------
(* Reductions and normalisations over an object given as the sequence of its
   elements in logical order.  Elements are integers; results are rationals
   N/D compared in fixed scale with an explicit tolerance.                   *)
EXTENDS NeoMath, FiniteSets
Sum(q)   == SeqSum(q)
Sq(x)    == x * x
SumSq(q) == SeqSum([i \in 1..Len(q) |-> q[i] * q[i]])
MaxAbs(q) == IF q = <<>> THEN 0 ELSE CHOOSE m \in {Abs(q[i]) : i \in 1..Len(q)} : \A i \in 1..Len(q) : Abs(q[i]) <= m

(* n * 10^6 / d, rounded down, without leaving 32 bits; 0 <= n, 0 < d <= 2*10^6 *)
Micro(n, d) == LET a == n \div d          r == n % d
                   b == (r * 1000) \div d r2 == (r * 1000) % d
                   c == (r2 * 1000) \div d
               IN  (a * 1000000) + (b * 1000) + c
SMicro(n, d) == IF n >= 0 THEN Micro(n, d) ELSE -Micro(-n, d)
Near(x, y, tol) == Abs(x - y) <= tol

MeanMicro(q) == SMicro(Sum(q), Len(q))
Shift(q, c) == [i \in 1..Len(q) |-> q[i] - c]
(* population variance: (n * sum x^2 - (sum x)^2) / n^2 *)
VarDef(q)   == (Len(q) * SumSq(q)) - Sq(Sum(q))
(* it does not depend on the offset; the first element keeps the numbers small *)
VarNum(q)   == VarDef(Shift(q, q[1]))
VarMicro(q) == Micro(VarNum(q), Sq(Len(q)))
(* n * 10^5 / d, rounded down; 0 <= n, d <= 2*10^5, n / d <= 20000 *)
Cent(n, d) == LET a == n \div d  r == n % d  b == (r * 10000) \div d  r2 == (r * 10000) % d  IN (a * 100000) + (b * 10) + ((r2 * 10) \div d)
(* variance (in 10^-5) of n elements that are zero but for those of q; the square of the mean to 1/n *)
SparseVar(q, n) == Cent(SumSq(q), n) - Cent(Sq(Sum(q)) \div n, n)
Diff(a, b)  == [i \in 1..Len(a) |-> a[i] - b[i]]
MseMicro(a, b) == Micro(SumSq(Diff(a, b)), Len(a))
(* r (in 10^-3) is the square root of v (in 10^-6) *)
IsRoot(r, v) == r >= 0 /\ Abs((r * r) - v) <= (2 * r) + 2

Isqrt(n) == CHOOSE m \in 0..2000 : m * m = n
HasRoot(n) == \E m \in 0..2000 : m * m = n

(* normalisations: y is the output scaled by 2^14 *)
(* energy: y_i^2 / 2^28 = x_i^2 / e *)
EnergyOk(x, e, y) ==
    \A i \in 1..Len(x) :
       /\ Sign(x[i]) * y[i] >= 0
       /\ LET m == Micro(Sq(x[i]), e)            want == (268 * m) + ((435 * m) \div 1000)   \* 2^28 = 268.435 * 10^6
          IN  Abs(Sq(y[i]) - want) <= (4 * Abs(y[i])) + 400
(* peak: y_i / 10^6 = x_i / m *)
PeakOk(x, m, y) == \A i \in 1..Len(x) : Near(y[i], SMicro(x[i], m), 2)

Row(x, cols, r) == SubSeq(x, (r - 1) * cols + 1, r * cols)
RowEnergies(x, rows, cols) == {SumSq(Row(x, cols, r)) : r \in 1..rows}
SetMax(S) == CHOOSE m \in S : \A z \in S : z <= m
==========================================================================
