---------------------------- MODULE TraceStats ----------------------------
EXTENDS TraceBase, Stats, Gauss
Init == TraceInit
Pairs(a, b) == 1..Len(a)
Parts(q, k) == [i \in 1..(Len(q) \div 2) |-> q[2 * i - k]]     \* k = 1: real, k = 0: imaginary parts
Norm2(q, i) == Sq(q[2 * i - 1]) + Sq(q[2 * i])
Moduli(q)   == [i \in 1..(Len(q) \div 2) |-> Isqrt(Norm2(q, i))]

Pred(p, a, b) == CASE p = "eq" -> a = b
                   [] p = "le" -> a <= b
                   [] p = "lt" -> a < b
                   [] p = "sumeven" -> (a + b) % 2 = 0
Pred1(p, a) == CASE p = "pos" -> a > 0 [] p = "even" -> a % 2 = 0 [] p = "small" -> Abs(a) < 5

Allowed ==
   CASE Ev.op = "mean" -> IF Len(Ev.x) = 0 THEN Ev.has = FALSE /\ Ev.r = 0
                          ELSE Ev.has = TRUE /\ Near(Ev.r, MeanMicro(Shift(Ev.x, Ev.off)), Ev.tol)
     [] Ev.op = "cmean" -> IF Len(Ev.x) = 0 THEN Ev.has = FALSE /\ Ev.r = <<0, 0>>
                           ELSE /\ Ev.has = TRUE
                                /\ Near(Ev.r[1], MeanMicro(Parts(Ev.x, 1)), Ev.tol)
                                /\ Near(Ev.r[2], MeanMicro(Parts(Ev.x, 0)), Ev.tol)
     [] Ev.op = "var"  -> IF Len(Ev.x) < 2 THEN Ev.has = FALSE /\ Ev.r = 0
                          ELSE Ev.has = TRUE /\ Near(Ev.r, VarMicro(Ev.x), Ev.tol)
     [] Ev.op = "std"  -> IF Len(Ev.x) < 2 THEN Ev.has = FALSE /\ Ev.r = 0
                          ELSE Ev.has = TRUE /\ IsRoot(Ev.r, VarMicro(Ev.x))
     [] Ev.op = "mse"  -> Near(Ev.r, MseMicro(Ev.x, Ev.y), Ev.tol)
     [] Ev.op = "cmse" -> Near(Ev.r, MseMicro(Moduli(Ev.x), Moduli(Ev.y)), Ev.tol)
     [] Ev.op = "rmse" -> IsRoot(Ev.r, MseMicro(Ev.x, Ev.y))
     [] Ev.op = "match" -> Ev.r = \A i \in Pairs(Ev.x, Ev.y) : Pred(Ev.p, Ev.x[i], Ev.y[i])
     [] Ev.op = "match1" -> Ev.r = \A i \in 1..Len(Ev.x) : Pred1(Ev.p, Ev.x[i])
     (* within the tolerance, inclusive *)
     [] Ev.op = "close" -> Ev.r = \A i \in Pairs(Ev.x, Ev.y) : Abs(Ev.x[i] - Ev.y[i]) <= Ev.t
     [] Ev.op = "cclose" -> Ev.r = \A i \in 1..(Len(Ev.x) \div 2) :
              Sq(Ev.x[2 * i - 1] - Ev.y[2 * i - 1]) + Sq(Ev.x[2 * i] - Ev.y[2 * i]) <= Sq(Ev.t)
     (* n elements, all zero but the ones listed *)
     [] Ev.op = "lmean" -> Ev.has = TRUE /\ Near(Ev.r, SMicro(Sum(Ev.x), Ev.n), 60)
     [] Ev.op = "lvar" -> Ev.has = TRUE /\ Near(Ev.r, SparseVar(Ev.x, Ev.n), (SparseVar(Ev.x, Ev.n) \div 5000) + 40)
     [] Ev.op = "lmse" -> Near(Ev.r, Cent(SumSq(Ev.x), Ev.n), (Cent(SumSq(Ev.x), Ev.n) \div 5000) + 20)
     [] Ev.op = "lmatch" -> Ev.r = (Ev.x = <<>>)
     [] Ev.op = "lclose" -> Ev.r = \A i \in 1..Len(Ev.x) : Abs(Ev.x[i]) <= Ev.tol
     [] Ev.op = "closenan" -> Ev.r = FALSE
     [] Ev.op = "energy" ->
          LET e == SumSq(Ev.x) IN
          IF e = 0 THEN Ev.z = Ev.x /\ Ev.y = Ev.x ELSE
             /\ EnergyOk(Ev.x, e, Ev.y)
             /\ (HasRoot(e) => Near(Ev.f, 1000000000 \div Isqrt(e), 1 + ((1000000000 \div Isqrt(e)) \div 300000)))
     [] Ev.op = "peak" ->
          LET m == MaxAbs(Ev.x) IN
          IF m = 0 THEN Ev.z = Ev.x /\ Ev.y = Ev.x ELSE PeakOk(Ev.x, m, Ev.y)
     [] Ev.op = "impulse" ->
          LET es == RowEnergies(Ev.x, Ev.rows, Ev.cols)
              e  == IF es = {} THEN 0 ELSE SetMax(es)
          IN  IF e = 0 THEN Ev.z = Ev.x
              ELSE IF 0 \in es /\ Ev.k < 0 /\ (Ev.k < -14 \/ e < 4 ^ (-Ev.k)) THEN Ev.z = Ev.x
              ELSE EnergyOk(Ev.x, e, Ev.y)
Next == \/ More /\ TRUE = (Allowed /\ Ev.guard) /\ Consume
        \/ Done
==========================================================================
