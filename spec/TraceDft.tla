----------------------------- MODULE TraceDft -----------------------------
EXTENDS TraceBase, Dft
VARIABLE n        \* size of the plan of this session
Init == TraceInit /\ n = 0
Allowed ==
    CASE Ev.op = "impulse" -> Ev.exps = ImpulseResponse(n, Ev.dir, Ev.p, Ev.q)
      [] Ev.op = "probe" -> Ev.exps = ImpulseAt(n, Ev.dir, Ev.p, Ev.q, Ev.ks)
      (* the input was synthesised from the integer spectrum c: the transform recovers it *)
      [] Ev.op = "spectrum" -> Ev.out = Ev.c
      (* forward then backward (or the reverse), divided by n *)
      [] Ev.op = "roundtrip" -> Ev.out = Ev.x
Next == \/ /\ Is("plan") /\ Ev.size = Ev.n /\ Ev.n = Ev.radix ^ Ev.order /\ Ev.ord = Ev.order /\ n' = Ev.n /\ Consume
        \/ /\ (Is("refuse") \/ Is("accept")) /\ Ev.r = TRUE /\ n' = n /\ Consume
        \/ /\ More /\ Ev.op \notin {"plan", "refuse", "accept"} /\ TRUE = (Allowed /\ Ev.guard) /\ n' = n /\ Consume
        \/ Done /\ UNCHANGED n
==========================================================================
