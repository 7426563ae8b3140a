-------------------------- MODULE TraceSimdFloat --------------------------
EXTENDS TraceBase, SimdFloat
Init == TraceInit

Vec(e) == LET n == Len(e.a) IN
    /\ Len(e.b) = n /\ Len(e.r) = n /\ e.lanes = n
    /\ e.guard /\ e.inputs /\ e.dev = 0
    /\ \A i \in 1..n : e.r[i] = FlApply(e.k, e.p, e.a[i], e.b[i])
Splat(e) == /\ Len(e.r) = e.lanes /\ e.size = e.lanes /\ e.align = e.bytes
            /\ \A i \in 1..e.lanes : e.r[i] = e.x
Move(e)  == e.r = e.a /\ e.guard
(* the scalar operation's bits in every lane *)
Bits(e)  == e.guard /\ Len(e.r) >= e.lanes /\ e.r = e.want
CVec(e)  == /\ Len(e.re) = e.lanes /\ Len(e.im) = e.lanes
            /\ \A i \in 1..e.lanes : <<e.re[i], e.im[i]>> = FlComplex(e.k, e.ar[i], e.ai[i], e.br[i], e.bi[i])
(* the widest batch the target has is the default one *)
Native(e) == e.f32 = e.f32max /\ e.f64 = e.f64max
Next == \/ /\ More
           /\ TRUE = CASE Ev.op = "vec" -> Vec(Ev)
                       [] Ev.op = "splat" -> Splat(Ev)
                       [] Ev.op = "move" -> Move(Ev)
                       [] Ev.op = "bits" -> Bits(Ev)
                       [] Ev.op = "cvec" -> CVec(Ev)
                       [] Ev.op = "native" -> Native(Ev)
                       [] OTHER -> FALSE
           /\ Consume
        \/ Done
==========================================================================
