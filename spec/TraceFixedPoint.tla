------------------------- MODULE TraceFixedPoint -------------------------
(* Trace specification for scalar fixed-point arithmetic (P17), conversions
   and comparisons (P18), vector batches and spans (P19). *)
EXTENDS TraceBase, FixedPointMachine

Init == TraceInit /\ fmt = [w |-> 8, f |-> 7] /\ acc = 0

Same(e, n) == Len(e.a) = n /\ Len(e.b) = n /\ Len(e.r) = n

(* a row of independent scalar operations *)
Row(e) == LET n == Len(e.a) IN
    /\ Same(e, n)
    /\ \A i \in 1..n : e.r[i] = FxApply(e.w, e.f, e.k, e.a[i], e.b[i])

Convert(e) == LET n == Len(e.m) IN
    /\ Len(e.e) = n /\ Len(e.r) = n
    /\ \A i \in 1..n : e.r[i] = FxFromReal(e.w, e.f, e.m[i], e.e[i])

(* infinities saturate *)
ConvertInf(e) == e.r = <<IntMax(e.w), IntMin(e.w)>>

(* words to floating point are exact: value * 2^f is the word *)
ToReal(e) == LET n == Len(e.a) IN
    /\ Len(e.r) = n /\ e.r = e.a /\ e.dev = 0

Compare(e) == LET n == Len(e.a) IN
    /\ Same(e, n)
    /\ \A i \in 1..n : e.r[i] = FxCompare(e.a[i], e.b[i])

Traits(e) == /\ e.ib = e.w - 1 - e.f /\ e.fb = e.f /\ e.scale = 2^e.f
             /\ e.zero = 0 /\ e.isfx /\ ~e.notfx /\ e.bytes * 8 = e.w

(* a vectorised operation on a batch or a span; guard words around the output
   are untouched; inputs are unmodified (in place: the output is the input) *)
Vec(e) == LET n == Len(e.a) IN
    /\ Same(e, n)
    /\ e.guard = TRUE /\ e.inputs = TRUE
    /\ \A i \in 1..n :
         IF e.k = "mul" THEN FxMulV(e.w, e.f, e.a[i], e.b[i], e.r[i])
         ELSE e.r[i] = FxApply(e.w, e.f, e.k, e.a[i], e.b[i])

(* broadcast / load / store *)
Splat(e) == Len(e.r) = e.lanes /\ e.size = e.lanes /\ \A i \in 1..e.lanes : e.r[i] = e.x
Move(e)  == e.r = e.a /\ e.guard = TRUE

(* compared with TRUE so that TLC evaluates it as a value: as an action its
   disjunctions would multiply into successor states *)
Stateless ==
    /\ TRUE =
       CASE Ev.op = "row" -> Row(Ev)
         [] Ev.op = "fromfloat" -> Convert(Ev)
         [] Ev.op = "frominf" -> ConvertInf(Ev)
         [] Ev.op = "tofloat" -> ToReal(Ev)
         [] Ev.op = "cmp" -> Compare(Ev)
         [] Ev.op = "traits" -> Traits(Ev)
         [] Ev.op = "vec" -> Vec(Ev)
         [] Ev.op = "splat" -> Splat(Ev)
         [] Ev.op = "move" -> Move(Ev)
         [] OTHER -> FALSE
    /\ UNCHANGED FxVars

Load  == Is("load") /\ FxLoad(Ev.w, Ev.f, Ev.x) /\ acc' = Ev.r
Apply == Is("apply") /\ FxStep(Ev.k, Ev.b) /\ acc' = Ev.r

Next == \/ More /\ Ev.op \notin {"load", "apply"} /\ Stateless /\ Consume
        \/ Load /\ Consume
        \/ Apply /\ Consume
        \/ Done /\ UNCHANGED FxVars
==========================================================================
