---------------------------- MODULE TraceConv ----------------------------
EXTENDS TraceBase, Conv
Els(q) == [k \in 1..(Len(q) \div 2) |-> <<q[2 * k - 1], q[2 * k]>>]
Re(q) == [k \in 1..Len(q) |-> q[k][1]]
Im(q) == [k \in 1..Len(q) |-> q[k][2]]
ComplexConv(x, h) ==
    LET a == FullConvS(Re(x), Re(h))
        b == FullConvS(Im(x), Im(h))
        c == FullConvS(Re(x), Im(h))
        d == FullConvS(Im(x), Re(h))
    IN [k \in 1..Len(a) |-> <<a[k] - b[k], c[k] + d[k]>>]
Allowed ==
    CASE Ev.op = "conv"  -> Ev.y = FullConvS(Ev.x, Ev.h) /\ Ev.guard
      [] Ev.op = "cconv" -> Els(Ev.y) = ComplexConv(Els(Ev.x), Els(Ev.h)) /\ Ev.guard
      [] Ev.op = "sizes" -> Ev.r = FullSize(Ev.n, Ev.l) /\ Ev.sig = Ev.n /\ Ev.pat = Ev.l
      [] Ev.op = "empty" -> Ev.r = 0
Init == TraceInit
Next == \/ More /\ TRUE = Allowed /\ Consume
        \/ Done
==========================================================================
