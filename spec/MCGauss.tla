----------------------------- MODULE MCGauss -----------------------------
(* Field laws of the complex specification on a box of Gaussian integers. *)
EXTENDS Gauss
CONSTANT R
VARIABLES a, b, c
Box == (-R..R) \X (-R..R)
Init == a \in Box /\ b \in Box /\ c \in {<<0, 1>>, <<2, -1>>, <<-1, -2>>}
Next == UNCHANGED <<a, b, c>>
Laws == /\ GMul(a, b) = GMul(b, a)
        /\ GMul(a, GAdd(b, c)) = GAdd(GMul(a, b), GMul(a, c))
        /\ GMul(GMul(a, b), c) = GMul(a, GMul(b, c))
        /\ GNorm(GMul(a, b)) = GNorm(a) * GNorm(b)
        /\ GConj(GMul(a, b)) = GMul(GConj(a), GConj(b))
        /\ GMul(a, GConj(a)) = <<GNorm(a), 0>>
        (* (a / b) * b = a *)
        /\ GMul(GDivNum(a, b), b) = GScale(GNorm(b), a)
        /\ GAdd(a, GNeg(a)) = GZero /\ GSub(a, b) = GAdd(a, GNeg(b))
==========================================================================
