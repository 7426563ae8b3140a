------------------------------ MODULE Plugin ------------------------------
(* The plugin as its host sees it: three automated parameters, a saved state,
   listeners for the processing specification, and the signal path
       out gain * (dry weight * in gain * x  +  wet weight * dense(in gain * x))
   where dense is PluginConv's effect for frames of the next power of two of the
   maximum block, made anew by every preparation from the impulse file of that
   moment.  Parameters are normalised in quarters: k stands for k/4, a gain is
   4 (k/4)^2, so gains are counted in quarters; the mix is balanced (both weights
   one at the centre), counted in quarters too.  Samples out are times 640.    *)
EXTENDS PluginConv
VARIABLE p
Knobs == {"in", "wet", "out"}
Default == [in |-> 2, wet |-> 4, out |-> 2]
NoFile == [there |-> FALSE, h |-> <<>>, unit |-> 2]
Fresh(slots, file) == [knob |-> Default, spec |-> <<44100, 512, 2>>, ears |-> {}, slots |-> slots, file |-> file]
Gain(k) == k * k
DryWeight(k) == Min(4, 8 - 2 * k)
WetWeight(k) == Min(4, 2 * k)
(* what the host reads back, in quarters of the unit *)
Plain(knob) == <<Gain(knob["in"]), knob["wet"], Gain(knob["out"])>>

RECURSIVE Pow2From(_, _)
Pow2From(n, b) == IF n >= b THEN n ELSE Pow2From(2 * n, b)

PgNew(slots, file) == p' = Fresh(slots, file) /\ st' = Nothing
PgFile(f) == p' = [p EXCEPT !.file = f] /\ UNCHANGED st
PgSet(which, k) == p' = [p EXCEPT !.knob[which] = k] /\ UNCHANGED st
PgPrepare(rate, b, c, u) ==
    /\ p' = [p EXCEPT !.spec = <<rate, b, c>>]
    /\ st' = [Constructed("dense", Pow2From(1, b)) EXCEPT !.B = b, !.ch = c, !.host = u, !.ready = TRUE,
              !.imp = IF p.file.there THEN p.file.h ELSE <<>>, !.unit = p.file.unit, !.past = Silence(c), !.proc = Silence(c)]
PgRelease == UNCHANGED p /\ (IF st.ready THEN PcReset ELSE UNCHANGED st)
PgSave(s) == p' = [p EXCEPT !.slots[s] = p.knob] /\ UNCHANGED st
PgRestore(s) == p' = [p EXCEPT !.knob = p.slots[s]] /\ UNCHANGED st
PgListen(e, add) == p' = [p EXCEPT !.ears = IF add THEN @ \cup {e} ELSE @ \ {e}] /\ UNCHANGED st
Ignored == UNCHANGED <<p, st>>

Louder(x, g) == [c \in 1..Len(x) |-> [i \in 1..Len(x[c]) |-> g * x[c][i]]]
PgBlock(x, y) ==
    \E sx \in {Louder(x, Gain(p.knob["in"]))} :
      IF ~st.ready
      THEN y = Louder(sx, 40 * Gain(p.knob["out"])) /\ Ignored
      ELSE \E proc \in {DenseProc(sx)} : \E wet \in {DenseOut(sx, proc)} :
             /\ y = [c \in 1..Len(x) |-> [i \in 1..Len(x[c]) |->
                       Gain(p.knob["out"]) * (10 * DryWeight(p.knob["wet"]) * sx[c][i] + WetWeight(p.knob["wet"]) * wet[c][i])]]
             /\ st' = [st EXCEPT !.past = [c \in 1..st.ch |-> st.past[c] \o sx[c]], !.proc = proc]
             /\ UNCHANGED p

Supported(i, o) == o \in {1, 2} /\ i = o
==========================================================================
