-------------------------- MODULE TraceFxComplex --------------------------
EXTENDS TraceBase, FxComplex

Init == TraceInit

P(q, i) == q[i]
Pairs(e) == /\ Len(e.a) = Len(e.b) /\ Len(e.a) = Len(e.r)
            /\ \A i \in 1..Len(e.r) : Len(e.r[i]) = 2

Arith(e) == /\ Pairs(e)
            /\ \A i \in 1..Len(e.a) :
                 e.r[i] = IF e.k = "add" THEN CAdd(e.w, e.a[i], e.b[i]) ELSE CSub(e.w, e.a[i], e.b[i])
(* construction, accessors and setters keep the two parts apart *)
Parts(e) == e.got = e.want

Correct(e, i)  == e.r[i] = CMul(e.a[i], e.b[i])
MulOk(e)  == Pairs(e) /\ \A i \in 1..Len(e.a) : Correct(e, i)
MulDev(e) == Pairs(e) /\ \A i \in 1..Len(e.a) : Correct(e, i) \/ e.r[i] = CMulDeviant(e.a[i], e.b[i])

(* a word k of an integer type with largest value mx reads as k / mx *)
Compressed(e) == e.r = e.a /\ e.dev <= e.tol /\ e.tol <= 5000

Next ==
    \/ /\ More
       /\ TRUE = CASE Ev.op = "carith" -> Arith(Ev)
                   [] Ev.op = "cparts" -> Parts(Ev)
                   [] Ev.op = "compressed" -> Compressed(Ev)
                   [] Ev.op = "cmul" -> MulOk(Ev)
                   [] OTHER -> FALSE
       /\ Consume
    \/ /\ Is("cmul") /\ ~MulOk(Ev) /\ MulDev(Ev) /\ Deviates("complex-multiply-left-imag")
       /\ Consume
    \/ Done
==========================================================================
