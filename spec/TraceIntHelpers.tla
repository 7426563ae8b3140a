------------------------- MODULE TraceIntHelpers -------------------------
EXTENDS TraceBase, IntHelpers
Init == TraceInit
Primes == <<32749, 32719, 32717, 32713, 32707>>

(* a row of words x[i]; results r[i] *)
BitCeil(e)   == /\ Len(e.x) = Len(e.r)
                /\ \A i \in 1..Len(e.x) : e.r[i] = PowerOfTwo(CeilLog2(e.x[i]), 4)
BitLog2(e)   == /\ Len(e.x) = Len(e.r)
                /\ \A i \in 1..Len(e.x) : e.r[i] = IF IsZero(e.x[i]) THEN 0 ELSE FloorLog2(e.x[i])
NextOrder(e) == /\ Len(e.x) = Len(e.r)
                /\ \A i \in 1..Len(e.x) : e.r[i] = CeilLog2(e.x[i])
FftSize(e)   == e.r = PowerOfTwo(e.k, 4)
IPow(e)      == /\ Len(e.r) = Len(Primes)
                /\ \A i \in 1..Len(Primes) : e.r[i] = PowMod(e.b, e.e, Primes[i])
IDiv(e)      == /\ Len(e.x) = Len(e.r) /\ Len(e.y) = Len(e.r)
                /\ \A i \in 1..Len(e.x) : e.r[i] = CeilDiv(e.x[i], e.y[i])
(* ceil((q 2^k + d) / 2^k), d in {-1, 0, 1} *)
IDivWide(e)  == e.r = e.q + (IF e.d > 0 THEN 1 ELSE 0)
Parity(e)    == /\ Len(e.x) = Len(e.even) /\ Len(e.x) = Len(e.odd)
                /\ \A i \in 1..Len(e.x) : e.odd[i] = (IF Odd(e.x[i]) THEN 1 ELSE 0)
                                       /\ e.even[i] = 1 - e.odd[i]
(* binary32 encoding of (-1)^s * (2^23 + m) * 2^(k - 23): <<lo16, hi16>> *)
BitCast(e)   == /\ e.bits = <<e.m % 65536, e.s * 32768 + (127 + e.k) * 128 + e.m \div 65536>>
                /\ e.back = TRUE

Next == \/ /\ More
           /\ TRUE = CASE Ev.op = "bitceil" -> BitCeil(Ev)
                       [] Ev.op = "bitlog2" -> BitLog2(Ev)
                       [] Ev.op = "nextorder" -> NextOrder(Ev)
                       [] Ev.op = "fftsize" -> FftSize(Ev)
                       [] Ev.op = "ipow" -> IPow(Ev)
                       [] Ev.op = "idiv" -> IDiv(Ev)
                       [] Ev.op = "idivw" -> IDivWide(Ev)
                       [] Ev.op = "parity" -> Parity(Ev)
                       [] Ev.op = "bitcast" -> BitCast(Ev)
                       [] OTHER -> FALSE
           /\ Consume
        \/ Done
==========================================================================
