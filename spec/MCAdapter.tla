---------------------------- MODULE MCAdapter ----------------------------
(* The adapter's algorithm (carried-over samples, output ring that is shifted
   by every block, write position), against FrameStream's law, for every
   sequence of block sizes, resets and preparations.

   Output cells hold the set of contributions <<frame, index>> added to them;
   the junk of uninitialised memory, and whatever an earlier step leaves behind
   outside the live range, is a contribution of frame -1.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOrder, MaxBlock, MaxSamples, ClearOnPrepare
VARIABLES F, H, B, n, u, unused, out, off, fresh, k0, ok
vars == <<F, H, B, n, u, unused, out, off, fresh, k0, ok>>

Junk == {<<-1, 0>>}
KCount(f, h, b) == 1 + ((b - 1) \div h)
OutSize(f, h, b) == KCount(f, h, b) * h + (f - h) + b - 1
Cells(size, v) == [p \in 0..(size - 1) |-> v]

Prepared(f, h, b, junk) ==
    /\ F' = f /\ H' = h /\ B' = b /\ n' = 0 /\ u' = 0
    /\ unused' = [p \in 0..(f - 2) |-> -1]
    /\ out' = Cells(OutSize(f, h, b), junk)
    /\ off' = f - 1 /\ k0' = 0 /\ ok' = TRUE

Init == \E o \in 0..MaxOrder : \E d \in 0..o : \E b \in 1..MaxBlock :
          LET f == 2^o
              h == 2^(o - d)
          IN /\ F = f /\ H = h /\ B = b /\ n = 0 /\ u = 0 /\ fresh = 0
             /\ unused = [p \in 0..(f - 2) |-> -1]
             /\ out = Cells(OutSize(f, h, b), IF ClearOnPrepare THEN {} ELSE Junk)
             /\ off = f - 1 /\ k0 = 0 /\ ok = TRUE

(* one frame: content fr, number k *)
WriteBack(s, fr) ==
    LET a == s.off
        k == s.k
    IN TLCEval([s EXCEPT
        !.ok = s.ok /\ (a >= 0) /\ (a + F <= OutSize(F, H, B)),
        !.out = TLCEval([p \in DOMAIN s.out |->
                   IF p >= a /\ p < a + F - H THEN s.out[p] \cup {<<k, p - a>>}
                   ELSE IF p >= a + F - H /\ p < a + F THEN {<<k, p - a>>}
                   ELSE s.out[p]]),
        !.off = a + H, !.k = k + 1, !.frames = Append(s.frames, TLCEval(fr))])

RECURSIVE Loop1(_, _), Loop2(_, _, _)
Loop1(s, l) ==
    IF s.u > 0 /\ s.u + l >= F
    THEN LET fr == [i \in 1..F |-> IF i <= s.u THEN unused[s.ofs + i - 1] ELSE n + (i - 1 - s.u)]
             t  == WriteBack(s, fr)
         IN Loop1([t EXCEPT !.ofs = s.ofs + H, !.u = s.u - H], l)
    ELSE s
Loop2(s, d, l) ==
    IF l - d >= F
    THEN Loop2(WriteBack(s, [i \in 1..F |-> n + d + i - 1]), d + H, l)
    ELSE [s EXCEPT !.ofs = d]

(* FrameStream's law: who contributes to the output sample at time t *)
Covering(t) == LET m == t - (F - 1)
               IN IF m < 0 THEN {}
                  ELSE {<<k, m - k * H>> : k \in {q \in 0..(m \div H) : m - q * H < F}}

Start == [u |-> u, ofs |-> 0, out |-> out, off |-> off, k |-> k0, frames |-> <<>>, ok |-> TRUE]
Process(l) == n + l <= MaxSamples /\
    \E s1 \in {Loop1(Start, l)} : \E s2 \in {IF s1.u > 0 THEN s1 ELSE Loop2(s1, -s1.u, l)} :
    \E rem \in {IF s1.u > 0 THEN s1.u + l ELSE l - s2.ofs} :
    \E size \in {OutSize(F, H, B)} : \E sh0 \in {s2.off + F - H - l} :
    \E sh \in {IF l + sh0 - size > 0 THEN size - l ELSE sh0} :
       /\ n' = n + l /\ u' = rem
       /\ unused' = IF s1.u > 0
               THEN [p \in DOMAIN unused |-> IF p < s1.u THEN unused[u - s1.u + p]
                                             ELSE IF p < s1.u + l THEN n + p - s1.u ELSE -1]
               ELSE [p \in DOMAIN unused |-> IF p < rem THEN n + s2.ofs + p ELSE -1]
       /\ out' = [p \in DOMAIN out |-> IF p < sh THEN s2.out[p + l] ELSE IF sh < sh0 THEN s2.out[p] ELSE Junk]
       /\ off' = s2.off - l /\ k0' = s2.k
       /\ ok' = (s2.ok /\ rem >= 0 /\ rem <= F - 1 /\ sh >= 0 /\ l <= size
                 /\ \A j \in 1..l : s2.out[j - 1] = Covering(n + j - 1)
                 /\ \A q \in 1..Len(s2.frames) : s2.frames[q] = [i \in 1..F |-> (k0 + q - 1) * H + i - 1])
       /\ UNCHANGED <<F, H, B, fresh>>

(* the previous run left stale data in memory that has the same size *)
Reset == Prepared(F, H, B, {}) /\ fresh < 1 /\ fresh' = fresh + 1
Again == Prepared(F, H, B, IF ClearOnPrepare THEN {} ELSE Junk) /\ fresh < 1 /\ fresh' = fresh + 1
Next == (\E l \in 0..B : Process(l)) \/ Reset \/ Again
Spec == Init /\ [][Next]_vars

Law == /\ ok
       /\ k0 = IF n < F THEN 0 ELSE ((n - F) \div H) + 1
       /\ off = F - 1 - u
==========================================================================
