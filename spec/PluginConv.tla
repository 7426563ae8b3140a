---------------------------- MODULE PluginConv ----------------------------
(* The plugin's convolution effects as a host sees them.

   "dense": any block size; the stream passes through frames of F samples
   (FrameStream with H = F, so a gain of two), each convolved with the loaded
   impulse after all its channels were scaled by one common factor to at most
   unit energy; the result is heard F-1 samples late.  Without an impulse the
   signal itself is heard.  A new impulse counts from the next frame on, as if
   everything before had been silent.
   "plain": blocks of exactly the prepared size are replaced by the linear
   convolution with the unscaled impulse, without latency; any other block, and
   everything before an impulse is loaded, passes unchanged.

   Impulses of a dense effect have energy 100 in their loudest channel (or are
   silent), so ten times the output is an integer.                            *)
EXTENDS Sparse
Nothing == [kind |-> "dense", F |-> 0, B |-> 0, ch |-> 0, ready |-> FALSE, imp |-> <<>>, unit |-> 2, host |-> 2, past |-> <<>>, proc |-> <<>>, start |-> 0]
Constructed(kind, f) == [Nothing EXCEPT !.kind = kind, !.F = f]

RECURSIVE EnergyOf(_, _)
EnergyOf(q, i) == IF i = 0 THEN 0 ELSE q[i] * q[i] + EnergyOf(q, i - 1)
Energy(q) == EnergyOf(q, Len(q))
LoudestOf(rows) == CHOOSE e \in {Energy(rows[c]) : c \in 1..Len(rows)} : \A c \in 1..Len(rows) : Energy(rows[c]) <= e

(* an impulse recorded at a whole multiple of the host's rate *)
Resampled(q, r) == IF r = 1 THEN q
                   ELSE LET n == Max(1, (Len(q) + (r \div 2)) \div r)
                        IN [i \in 1..n |-> IF (i - 1) * r + 1 <= Len(q) THEN q[(i - 1) * r + 1] ELSE 0]

Silence(c) == [k \in 1..c |-> <<>>]
(* the impulse heard in channel c; ten times the identity when none is loaded.
   It is always derived from the recording: z.unit and z.host are the rates of
   the recording and of the host (in units of 4 kHz).                        *)
Heard(z, c) == IF z.imp = <<>> THEN <<10>> ELSE Resampled(z.imp[c], z.unit \div z.host)

PcPrepare(b, c, u) == st' = [st EXCEPT !.B = b, !.ch = c, !.host = u, !.ready = TRUE, !.past = Silence(c), !.proc = Silence(c), !.start = 0]
PcLoad(h, u) == st' = [st EXCEPT !.imp = h, !.unit = u,
                       !.start = IF st.ready /\ st.kind = "dense" THEN Len(st.proc[1]) ELSE 0,
                       !.past = IF st.kind = "plain" /\ st.ready THEN Silence(st.ch) ELSE @]
PcReset == st' = IF st.kind = "plain" THEN [st EXCEPT !.ready = FALSE]
                 ELSE [st EXCEPT !.past = Silence(st.ch), !.proc = Silence(st.ch), !.start = 0]

(* sample m of channel c's processed stream: only samples from position s on are heard *)
WetAt(all, h, sup, s, m) == LET cut == SubSeq(all, s + 1, Len(all)) IN SparseDot(cut, h, sup, m - s, 1)

DenseProc(x) ==
    [c \in 1..st.ch |->
        LET all == st.past[c] \o x[c]
            n1  == (Len(all) \div st.F) * st.F
            n0  == Len(st.proc[c])
            h   == Heard(st, c)
            sup == Support(h)
        IN st.proc[c] \o [i \in 1..(n1 - n0) |-> 2 * WetAt(all, h, sup, st.start, n0 + i - 1)]]
DenseOut(x, proc) ==
    [c \in 1..st.ch |-> [i \in 1..Len(x[c]) |->
        LET t == Len(st.past[c]) + i - 1 - (st.F - 1) IN IF t < 0 THEN 0 ELSE proc[c][t + 1]]]
PlainActive(x) == st.imp # <<>> /\ Len(x[1]) = st.B
PlainOut(x) ==
    [c \in 1..st.ch |->
        IF ~PlainActive(x) THEN x[c]
        ELSE LET all == st.past[c] \o x[c]
                 h   == Heard(st, c)
                 sup == Support(h)
             IN [i \in 1..Len(x[c]) |-> SparseDot(all, h, sup, Len(st.past[c]) + i - 1, 1)]]

(* one block x with the observed output y *)
PcBlock(x, y) ==
    /\ st.ready
    /\ IF st.kind = "dense"
       THEN \E proc \in {DenseProc(x)} :
              /\ y = DenseOut(x, proc)
              /\ st' = [st EXCEPT !.past = [c \in 1..st.ch |-> st.past[c] \o x[c]], !.proc = proc]
       ELSE /\ y = PlainOut(x)
            /\ st' = IF PlainActive(x) THEN [st EXCEPT !.past = [c \in 1..st.ch |-> st.past[c] \o x[c]]] ELSE st

(* ------------------------------------------------ offline processing *)
(* the first Len(x) samples, per channel, of the convolution with the (scaled) impulse *)
OfflineDense(x, h) == [c \in 1..Len(x) |-> LET sup == Support(h[c]) IN [i \in 1..Len(x[c]) |-> SparseDot(x[c], h[c], sup, i - 1, 1)]]
(* the same in blocks of b with every filter segment reduced to the bins of the mask (times 2b) *)
Nth(x, b, q) == PadTo(SubSeq(x, (q * b) + 1, Min(Len(x), (q + 1) * b)), b)
SegCount(h, b) == (Len(h) + b - 1) \div b
OfflineSparse(x, h, b, mask) ==
    [c \in 1..Len(x) |->
        LET ker == Kernels(h[c], b, [q \in 1..SegCount(h[c], b) |-> mask])
        IN [i \in 1..Len(x[c]) |->
              LET q == (i - 1) \div b
                  p == [d \in 1..(q + 1) |-> Nth(x[c], b, q - d + 1)]
              IN OlaSum(p, ker, b, (i - 1) % b, 1)]]

(* ------------------------------------------- which bins sparse_convolve keeps *)
(* A-weighting in tenths of a decibel at the nominal frequencies of IEC 61672-1 *)
AWeight(f) == CASE f = 0 -> -10000 [] f = 100 -> -191 [] f = 200 -> -109 [] f = 400 -> -48 [] f = 500 -> -32
                [] f = 1000 -> 0 [] f = 2000 -> 12 [] f = 10000 -> -25 [] f = 20000 -> -93
(* blocks of two samples (bins 0, rate/4, rate/2) and a response whose spectrum is flat,
   so every bin of the segment is as loud as the channel's loudest *)
KeptBins(rate, thr, lo) == {k \in 0..2 : (IF k < lo THEN 1000 ELSE AWeight(k * (rate \div 4))) > thr}
MaskOf(bins) == CASE bins = {} -> 1 [] bins = {0} -> 4 [] bins = {1} -> 3 [] bins = {2} -> 5
                  [] bins = {0, 2} -> 2 [] bins = {0, 1} -> 7 [] bins = {1, 2} -> 8 [] bins = {0, 1, 2} -> 0
(* what remains of the spectrum is what is heard; the channel's own level does not matter *)
OfflineLevel(x, h, rate, thr, lo) == OfflineSparse(x, h, 2, MaskOf(KeptBins(rate, thr, lo)))
(* segments of two samples with one impulse each: flat again, but of different loudness.
   20 log10(a) in tenths of a decibel; a bin's level is relative to the channel's loudest segment *)
Decibel(a) == <<0, 60, 95, 120, 140, 156, 169, 181, 191, 200>>[a]
LevelOf(g) == CHOOSE a \in 0..10 : \E i \in 1..Len(g) : Abs(g[i]) = a /\ \A j \in 1..Len(g) : Abs(g[j]) <= a
PeakOf(q) == LevelOf(q)
SegMask(g, top, rate, thr, lo) ==
    LET a == LevelOf(g)
    IN IF a = 0 THEN 1
       ELSE MaskOf({k \in 0..2 : (Decibel(a) - Decibel(top) + (IF k < lo THEN 1000 ELSE AWeight(k * (rate \div 4)))) > thr})
OfflineSegs(x, h, rate, thr, lo) ==
    [c \in 1..Len(x) |->
        LET n   == SegCount(h[c], 2)
            ker == Kernels(h[c], 2, [q \in 1..n |-> SegMask(Segment(h[c], 2, q - 1), PeakOf(h[c]), rate, thr, lo)])
        IN [i \in 1..Len(x[c]) |->
              LET q == (i - 1) \div 2
                  p == [d \in 1..(q + 1) |-> Nth(x[c], 2, q - d + 1)]
              IN OlaSum(p, ker, 2, (i - 1) % 2, 1)]]
(* blocks of any size b: at and below 10 Hz every weight is at most -70 dB, from 100 Hz to 20 kHz at least -19.1 dB *)
AllDropped(b, rate, thr, lo) == lo = 0 /\ rate <= 20 /\ thr >= -700
AllKept(b, rate, thr, lo) == \/ lo * rate >= 200 * b /\ rate <= 40000 /\ thr < -191
                             \/ lo * rate >= 2000 * b /\ rate <= 16000 /\ thr < -20   \* from 1 to 8 kHz: at least -1.1 dB
OfflineBands(x, h, b, rate, thr, lo) ==
    CASE AllDropped(b, rate, thr, lo) -> [c \in 1..Len(x) |-> [i \in 1..Len(x[c]) |-> 0]]
      [] AllKept(b, rate, thr, lo) -> OfflineDense(x, h)
==========================================================================
