-------------------------- MODULE TraceLogScale --------------------------
EXTENDS TraceBase, LogScale
Init == TraceInit
Near(a, b, t) == a - b <= t /\ b - a <= t

(* gain = sg * (a / b) * 2^k (sg in {-1, 0, 1}); result and floor in 1e-3 dB *)
Exact(e, i) == DbMilli(e.a[i]) - DbMilli(e.b[i]) + (e.k[i] * 60206) \div 10
Db(e) == /\ Len(e.r) = Len(e.a)
         /\ \A i \in 1..Len(e.a) :
              IF e.sg[i] <= 0 THEN e.r[i] = e.floor
              ELSE Near(e.r[i], Max(e.floor, Exact(e, i)), e.tol) /\ e.r[i] >= e.floor
         /\ e.tol <= (IF e.est THEN 10 ELSE 3)
(* powers of ten are exact: 20 n dB, in 1e-4 dB *)
DbTen(e) == \A i \in 1..Len(e.n) : Near(e.r[i], Max(-1440000, 200000 * e.n[i]), IF e.est THEN 100 ELSE 1)
(* monotone in the gain: e.r belongs to increasing gains *)
DbMono(e) == \A i \in 1..(Len(e.r) - 1) : e.r[i] <= e.r[i + 1]
(* level(a b) = level(a) + level(b), residual in last places of the type *)
DbHom(e) == Len(e.d) = Len(e.a) /\ \A i \in 1..Len(e.d) : Near(e.d[i], 0, 60)
(* fast_log2 (a 2^k), 1e-5 *)
FastLog2(e)  == \A i \in 1..Len(e.a) : Near(e.r[i], Log2E5(e.a[i]) + 100000 * e.k[i], 45)
FastLog10(e) == \A i \in 1..Len(e.a) :
                  LET q == Log2E5(e.a[i]) + 100000 * e.k[i] IN Near(e.r[i], (q * 3) \div 10 + ((q \div 100) * 103) \div 1000, 25)
(* doubling the argument adds one (1e-5 units) *)
FastStep(e) == \A i \in 1..Len(e.d) : Near(e.d[i], 100000, 3)
AWeighting(e) == \A i \in 1..Len(e.n) : Near(e.r[i], AWeight(e.n[i], e.s), 15)
(* reference: 0 dB at 1 kHz within 1e-3 *)
ARef(e) == Near(e.r, 0, 2)

Mel(e)    == \A i \in 1..Len(e.h) : Near(e.r[i], Mel100(e.h[i]), 50)
(* exact points, 1e-3 units: h = 700 (10^j - 1)  <->  2595 j *)
MelExact(e) == e.mel = 2595000 * e.j /\ e.hz = e.h * 1000
MelFine(e) == e.h = 700 * (10^e.j - 1) /\ \A i \in 1..2 : Near(e.d[i], 0, 20)
RoundTrip(e) == e.dev = 0 /\ e.r = e.h
(* n equally spaced mel frequencies from fmin to fmax; r in 1e-2 Hz, rmel in 1e-2 mel *)
MelFreqs(e) ==
    /\ Len(e.r) = e.n /\ e.guard
    /\ e.n >= 1 => Near(e.r[1], 100 * e.fmin, 5 + e.fmin \div 1000)
    /\ e.n >= 2 => /\ Near(e.r[e.n], 100 * e.fmax, 5 + e.fmax \div 500)
                   /\ \A i \in 1..(e.n - 1) : IF e.fmin < e.fmax THEN e.r[i] < e.r[i + 1] ELSE e.r[i] >= e.r[i + 1]
                   /\ \A i \in 1..e.n :
                        LET lo == Mel100(e.fmin)  hi == Mel100(e.fmax)
                        IN  Near(Mel100((e.r[i] + 50) \div 100), lo + ((hi - lo) \div (e.n - 1)) * (i - 1)
                                    + (((hi - lo) % (e.n - 1)) * (i - 1)) \div (e.n - 1), 100 + 200)
(* bin frequency: r * size = index * rate *)
Freq(e) == \A i \in 1..Len(e.idx) : e.r[i] = e.idx[i] * e.fs /\ e.dev[i] <= e.tol /\ e.tol <= 20000
FreqVec(e) == /\ Len(e.r) = e.n /\ e.guard /\ e.tol <= 20000
              /\ \A i \in 1..e.n : e.r[i] = (i - 1) * e.fs /\ e.dev[i] <= e.tol

(* windows: w (1e-5 units) -> cosine samples c_k with scale S *)
S == 10000
CosOf(e, k) == CASE e.kind = "hann"    -> S - (2 * e.w[k + 1]) \div 10
                 [] e.kind = "hamming" -> ((54000 - e.w[k + 1]) * 10) \div 46
WinOk(e) ==
    LET n == e.n  N == n - 1 IN
    /\ Len(e.w) = n /\ e.guard /\ e.agree
    /\ IF e.kind = "rect" THEN \A k \in 1..n : e.w[k] = 100000
       ELSE LET C == [k \in 0..N |-> CosOf(e, k)] IN
            /\ Near(C[0], S, 3) /\ Near(C[N], S, 3)
            /\ \A k \in 0..N : Near(C[k], C[N - k], 4) /\ C[k] <= S + 3 /\ C[k] >= -S - 3
            /\ \A k \in 0..(N \div 2) : 2 * k <= N => Near(C[2 * k], (2 * C[k] * C[k]) \div S - S, 14)
            /\ \A k \in 0..(N \div 2 - 1) : C[k + 1] <= C[k] + 2
            /\ N % 2 = 0 => Near(C[N \div 2], -S, 3)
            /\ N % 4 = 0 => Near(C[N \div 4], 0, 3)
            /\ N % 3 = 0 => Near(C[N \div 3], -5000, 3)
            /\ N % 6 = 0 => Near(C[N \div 6], 5000, 3)
            /\ N % 5 = 0 => Near(C[N \div 5], 3090, 3) /\ Near(C[2 * (N \div 5)], -8090, 3)
            /\ N % 7 = 0 => Near(C[N \div 7], 6235, 3)
            (* 1 - cos t = t^2 / 2 - t^4 / 24 + ..., t = 2 pi / N *)
            /\ N >= 8 => Near(S - C[1], 197392 \div (N * N) - (649394 \div (N * N)) \div (N * N), 6)

(* at k sixths of the period the cosine is a half-integer: 4 w (Hann) and 100 w (Hamming) are integers *)
TwoCos6 == <<2, 1, -1, -2, -1, 1, 2>>
WinPoint(e) ==
    /\ e.n = e.want /\ Len(e.r) = 28 /\ Len(e.d) = 28
    /\ \A i \in 1..28 :
         LET c == TwoCos6[((i - 1) \div 4) + 1] IN
         /\ e.r[i] = IF e.kind = "hann" THEN 2 - c ELSE 54 - 23 * c
         /\ Near(e.d[i], 0, IF e.kind = "hann" THEN 30 ELSE 600)

Next == \/ /\ More
           /\ TRUE = CASE Ev.op = "db" -> Db(Ev)
                       [] Ev.op = "dbten" -> DbTen(Ev)
                       [] Ev.op = "dbmono" -> DbMono(Ev)
                       [] Ev.op = "fastlog2" -> FastLog2(Ev)
                       [] Ev.op = "fastlog10" -> FastLog10(Ev)
                       [] Ev.op = "faststep" -> FastStep(Ev)
                       [] Ev.op = "aweight" -> AWeighting(Ev)
                       [] Ev.op = "aref" -> ARef(Ev)
                       [] Ev.op = "mel" -> Mel(Ev)
                       [] Ev.op = "melexact" -> MelExact(Ev)
                       [] Ev.op = "melround" -> RoundTrip(Ev)
                       [] Ev.op = "melfreqs" -> MelFreqs(Ev)
                       [] Ev.op = "freq" -> Freq(Ev)
                       [] Ev.op = "freqvec" -> FreqVec(Ev)
                       [] Ev.op = "window" -> WinOk(Ev)
                       [] Ev.op = "winpoint" -> WinPoint(Ev)
                       [] Ev.op = "melfine" -> MelFine(Ev)
                       [] Ev.op = "dbhom" -> DbHom(Ev)
                       [] OTHER -> FALSE
           /\ Consume
        \/ Done
==========================================================================
