--------------------------- MODULE TraceComplex ---------------------------
(* Complex value type and the generic real / imag / conj / abs / polar access
   functions.  A session is a program over one complex register z. *)
EXTENDS TraceBase, Gauss
VARIABLES z          \* register contents, a Gaussian integer over the denominator of the session (1)
Init == TraceInit /\ z = GZero

(* register programs: z (op)= b *)
CApply(k, x, b) ==
    CASE k = "add" -> GAdd(x, b)
      [] k = "sub" -> GSub(x, b)
      [] k = "mul" -> GMul(x, b)
      [] k = "self_add" -> GAdd(x, x)
      [] k = "self_sub" -> GZero
      [] k = "self_mul" -> GMul(x, x)
      [] k = "scale" -> GScale(b[1], x)
      [] k = "neg" -> GNeg(x)
      [] k = "pos" -> x
      [] k = "conj" -> GConj(x)
      [] k = "set_re" -> <<b[1], x[2]>>
      [] k = "set_im" -> <<x[1], b[2]>>
      [] k = "assign" -> b
Load  == Is("load") /\ z' = Ev.x /\ z' = Ev.r
Apply == Is("apply") /\ z' = CApply(Ev.k, z, Ev.b) /\ z' = Ev.r /\ Ev.dev = 0 /\ Ev.ret = TRUE

(* division: the result times |b|^2 is a * conj(b) *)
DivOk(e) == e.r = GDivNum(e.a, e.b) /\ e.dev <= e.tol /\ e.tol <= 20000 /\ e.ret
DivS(e)  == e.r = e.a /\ e.dev <= e.tol /\ e.tol <= 20000 /\ e.ret
(* modulus, scaled by 1000: r is within one of 1000 * sqrt(norm) *)
AbsOk(e) == /\ e.r >= 0
            /\ LET n == GNorm(e.a) IN
               /\ (e.r - e.slack) <= 0 \/ (e.r - e.slack) * (e.r - e.slack) <= 1000000 * n
               /\ (e.r + e.slack) * (e.r + e.slack) >= 1000000 * n
               /\ e.slack <= 2
(* modulus of a Pythagorean triple is exact; also at magnitudes beyond 32 bits (scaled back) *)
AbsExact(e) == e.r * e.r = GNorm(e.a) /\ e.dev <= e.tol /\ e.tol <= 2000
Access(e) == e.re = e.a[1] /\ e.im = e.a[2]
RealAccess(e) == e.re = e.a /\ e.im = e.a    \* a real operand passes through both
AbsReal(e) == e.r = Abs(e.a)
(* polar(r, theta) with theta = k * pi / 6 : components scaled by 2000 *)
Cos12 == <<2000, 1732, 1000, 0, -1000, -1732, -2000, -1732, -1000, 0, 1000, 1732>>
C12(k) == Cos12[(k % 12) + 1]
Polar(e) == /\ Abs(e.r[1] - e.rad * C12(e.k)) <= e.rad
            /\ Abs(e.r[2] - e.rad * C12(e.k + 9)) <= e.rad
Equal(e) == e.r = (e.a = e.b)
Log2(e) == e.r = e.k /\ e.dev = 0
IsComplex(e) == e.got = e.want

Stateless ==
    /\ TRUE = CASE Ev.op = "div" -> DivOk(Ev)
                [] Ev.op = "divs" -> DivS(Ev)
                [] Ev.op = "abs" -> AbsOk(Ev)
                [] Ev.op = "absx" -> AbsExact(Ev)
                [] Ev.op = "access" -> Access(Ev)
                [] Ev.op = "raccess" -> RealAccess(Ev)
                [] Ev.op = "absreal" -> AbsReal(Ev)
                [] Ev.op = "polar" -> Polar(Ev)
                [] Ev.op = "equal" -> Equal(Ev)
                [] Ev.op = "log2" -> Log2(Ev)
                [] Ev.op = "traits" -> IsComplex(Ev)
                [] OTHER -> FALSE
    /\ UNCHANGED z

Next == \/ More /\ Ev.op \notin {"load", "apply"} /\ Stateless /\ Consume
        \/ Load /\ Consume
        \/ Apply /\ Consume
        \/ Done /\ UNCHANGED z
==========================================================================
