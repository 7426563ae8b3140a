---------------------------- MODULE TracePyApi ----------------------------
EXTENDS TraceBase, PyApi
Init == TraceInit
Allowed ==
    CASE Ev.op = "fft" -> FftOk(Ev) /\ Ev.kept
      [] Ev.op = "probe" -> ProbeOk(Ev) /\ Ev.kept
      [] Ev.op = "convolve" -> ConvolveOk(Ev) /\ Ev.kept
      [] Ev.op = "rfftfreq" -> FreqOk(Ev)
      [] Ev.op = "element" -> ElementOk(Ev)
Next == \/ More /\ TRUE = Allowed /\ Consume
        \/ Done
==========================================================================
