------------------------------ MODULE PyApi ------------------------------
(* What the functions of the Python package mean.

   Transforms: the size is n, or the length of the input; only powers of two are
   supported.  The input is cropped or padded with zeros.  norm says where the
   factor 1/N goes ("backward": the inverse, "forward": the forward transform,
   "ortho": its square root to both).
   Inputs are zero except at multiples of N/4 (any value when N < 4), which makes
   every output a Gaussian integer: an exact sum over powers of i.            *)
EXTENDS Conv, Gauss
D == INSTANCE Dft
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrtFrom(n, r + 1)
RECURSIVE ISqrtNewton(_, _)
ISqrtNewton(n, r) == LET q == (r + (n \div r)) \div 2 IN IF q >= r THEN r ELSE ISqrtNewton(n, q)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtNewton(n, n)

(* i^e *)
Unit(e) == CASE (e % 4) = 0 -> <<1, 0>> [] (e % 4) = 1 -> <<0, 1>> [] (e % 4) = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Sized(x, n) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE GZero]
(* bin k of the transform of size n, from its (at most four) non-zero samples *)
RECURSIVE BinSum(_, _, _, _, _)
BinSum(x, n, dir, k, j) ==
    LET m == Min(4, n)
    IN IF j = m THEN GZero
       ELSE GAdd(GMul(x[(j * (n \div m)) + 1], Unit(dir * j * k * (4 \div m))), BinSum(x, n, dir, k, j + 1))
Spectrum(x, n, dir) == [k \in 1..n |-> BinSum(x, n, dir, k - 1, 0)]
(* N times (norm = ortho: 100 N times) the result *)
Norms == {"backward", "ortho", "forward"}
Factor(dir, norm, n) == IF norm = "ortho" THEN ISqrt(10000 * n)
                        ELSE IF (norm = "forward") = (dir = -1) THEN 1 ELSE n
Close(a, b, tol) == Abs(a - b) <= tol
FftOk(e) ==
    LET n == IF e.n = -1 THEN Len(e.x) ELSE e.n
    IN IF e.norm \notin Norms THEN e.err = "KeyError"
       ELSE IF ~IsPow2(n) THEN e.err = "RuntimeError"
       ELSE /\ e.err = "" /\ Len(e.y) = n
            /\ e.otype = (IF e.dtype = "complex128" THEN "complex128" ELSE "complex64")
            /\ \E z \in {Spectrum(Sized(e.x, n), n, e.dir)} : \E f \in {Factor(e.dir, e.norm, n)} :
                 \A k \in 1..n : \A c \in 1..2 :
                    IF e.norm = "ortho" THEN Close(e.y[k][c], z[k][c] * f, Abs(z[k][c]) + 2)
                    ELSE e.y[k][c] = z[k][c] * f

(* one impulse of any height (divided out) anywhere: bin k is a power of the root of unity, for every size *)
ProbeOk(e) == e.err = "" /\ e.size = e.n /\ e.exps = D!ImpulseAt(e.n, e.dir, e.p, 0, e.ks)

ConvolveOk(e) ==
    IF e.mode \notin {"full", "valid", "same"} THEN e.err = "KeyError"
    ELSE IF e.ndim1 # 1 \/ e.ndim2 # 1 \/ e.mode # "full" THEN e.err = "RuntimeError"
    ELSE e.err = "" /\ e.y = FullConvS(e.x, e.h) /\ e.otype = (IF e.dtype = "float64" THEN "float64" ELSE "float32")

(* n values i / (n d); here d = 1/rate, and y is n times the result *)
FreqOk(e) == e.err = "" /\ e.otype = "float64" /\ e.y = [i \in 1..e.n |-> (i - 1) * e.rate]

(* element-wise functions on powers of their base, in thousandths; the shape is kept *)
ElementOk(e) ==
    /\ e.err = "" /\ e.oshape = e.shape /\ Len(e.y) = Len(e.k)
    /\ e.otype = (IF e.f \in {"fast_log2", "fast_log10"} THEN "float32" ELSE e.dtype)
    /\ \A i \in 1..Len(e.k) :
         CASE e.f = "fast_log2" -> Close(e.y[i], 1000 * e.k[i], 10)
           [] e.f = "fast_log10" -> Close(e.y[i], 1000 * e.k[i], 10)
           [] e.f = "db" -> Close(e.y[i], Max(20000 * e.k[i], -144000), 2)
           [] e.f = "db_estimate" -> Close(e.y[i], Max(20000 * e.k[i], -144000), 20)
           (* the standard's table, at 10^(k/10) Hz, within 0.2 dB *)
           [] e.f = "a_weighting" -> Close(e.y[i], (CASE e.k[i] = 13 -> -50500 [] e.k[i] = 15 -> -39400 [] e.k[i] = 20 -> -19100
                                                      [] e.k[i] = 30 -> 0 [] e.k[i] = 34 -> 1200 [] e.k[i] = 40 -> -2500 [] OTHER -> -9300), 200)
==========================================================================
