---------------------------- MODULE FxComplex ----------------------------
(* Complex numbers over 16-bit fixed point words, and integer-compressed
   storage of real numbers in [-1, 1]. *)
EXTENDS FixedPoint

CAdd(w, a, b) == <<FxAdd(w, a[1], b[1]), FxAdd(w, a[2], b[2])>>
CSub(w, a, b) == <<FxSub(w, a[1], b[1]), FxSub(w, a[2], b[2])>>
(* each partial product is scaled by 2^-17 (two guard bits below 2^-15) and
   floored, so that the sums of two of them never leave the range *)
CMulShift == 17
CMul(a, b) == << Asr(a[1] * b[1], CMulShift) - Asr(a[2] * b[2], CMulShift),
                 Asr(a[1] * b[2], CMulShift) + Asr(a[2] * b[1], CMulShift) >>
(* Known deviation of the implementation: the imaginary part of the left
   operand is used for both operands. *)
CMulDeviant(a, b) == CMul(a, <<b[1], a[2]>>)
==========================================================================
