--------------------------- MODULE TraceRealDft ---------------------------
EXTENDS TraceBase, RealDft
VARIABLE n
Init == TraceInit /\ n = 0
Allowed ==
    CASE Ev.op = "rimpulse" -> Ev.exps = RealImpulse(n, Ev.p, Ev.q)
      [] Ev.op = "rprobe" -> Ev.exps = ImpulseAt(n, -1, Ev.p, Ev.q, Ev.ks)          \* large sizes: sampled bins
      [] Ev.op = "dctprobe" -> Ev.exps = DctAt(n, Ev.p, Ev.ks)
      [] Ev.op = "rspectrum" -> Ev.out = Ev.c            \* half spectrum of a synthesised real input
      [] Ev.op = "irfft" -> Ev.out = Ev.x                \* n * x from its half spectrum
      [] Ev.op = "rroundtrip" -> Ev.out = Ev.x
      [] Ev.op = "dct" -> Ev.exps = DctImpulse(n, Ev.p)
      [] Ev.op = "dctspectrum" -> Ev.out = Ev.c
      [] Ev.op = "deinterleaveat" ->     \* sampled: z = the elements k and n - k of the input for each k of ks
            \A i \in 1..Len(Ev.ks) : /\ El(Ev.x, i) = TwiceXOf(El(Ev.z, 2 * i - 1), El(Ev.z, 2 * i))
                                     /\ El(Ev.y, i) = TwiceYOf(El(Ev.z, 2 * i - 1), El(Ev.z, 2 * i))
      [] Ev.op = "deinterleave" ->
            /\ \A k \in 0..(Ev.n \div 2) : /\ El(Ev.x, k + 1) = TwiceX(Ev.z, Ev.n, k)
                                          /\ El(Ev.y, k + 1) = TwiceY(Ev.z, Ev.n, k)
            /\ Len(Ev.x) = 2 * Half(Ev.n) /\ Len(Ev.y) = 2 * Half(Ev.n)
Next == \/ /\ Is("plan") /\ Ev.size = Ev.n /\ Ev.n = 2 ^ Ev.order /\ Ev.ord = Ev.order /\ n' = Ev.n /\ Consume
        \/ /\ More /\ Ev.op # "plan" /\ TRUE = (Allowed /\ Ev.guard) /\ n' = n /\ Consume
        \/ Done /\ UNCHANGED n
==========================================================================
