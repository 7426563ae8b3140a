------------------------------ MODULE Gauss ------------------------------
(* Gaussian integers <<re, im>>: exact values of complex arithmetic on
   integer-valued operands. *)
EXTENDS NeoMath
GZero == <<0, 0>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GNeg(a)    == <<-a[1], -a[2]>>
GConj(a)   == <<a[1], -a[2]>>
GNorm(a)   == a[1] * a[1] + a[2] * a[2]
GScale(k, a) == <<k * a[1], k * a[2]>>
(* numerator of a / b over the denominator GNorm(b) *)
GDivNum(a, b) == GMul(a, GConj(b))
==========================================================================
