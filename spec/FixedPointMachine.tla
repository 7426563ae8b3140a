------------------------ MODULE FixedPointMachine ------------------------
(* A program over one fixed-point register of format fmt = (w, f). *)
EXTENDS FixedPoint
VARIABLES fmt, acc
FxVars == <<fmt, acc>>

FxLoad(w, f, x)  == fmt' = [w |-> w, f |-> f] /\ acc' = x
FxStep(k, b)     == acc' = FxApply(fmt.w, fmt.f, k, acc, b) /\ UNCHANGED fmt
==========================================================================
