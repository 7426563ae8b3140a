--------------------------- MODULE MCFxComplex ---------------------------
(* The complex product stays inside the 16-bit range for all operand corners
   and approximates (a * b) / 4 with an error below two steps. *)
EXTENDS FxComplex
VARIABLES a, b
Corner == {IntMin(16), IntMin(16) + 1, -16385, -1024, -1, 0, 1, 255, 12345, IntMax(16)}
Init == a \in Corner \X Corner /\ b \in Corner \X Corner
Next == UNCHANGED <<a, b>>
InRange == LET r == CMul(a, b) IN r[1] \in Words(16) /\ r[2] \in Words(16)
Commutes == CMul(a, b) = CMul(b, a)
AddLaw == CAdd(16, a, b) = CAdd(16, b, a) /\ CSub(16, a, a) = <<0, 0>>
==========================================================================
