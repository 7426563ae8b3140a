--------------------------- MODULE FrameStream ---------------------------
(* A frame-based effect behind a block-size adapter (extra/plugin,
   ConstantOverlapAdd), as a host sees it.

   The host feeds blocks of any size.  The adapter cuts the stream into frames
   of F samples that start every H samples, scales them by 2H/F, hands each
   complete frame to the effect exactly once and in order, and adds the
   processed frames up where they overlap.  The sum appears F-1 samples late;
   before that there is silence.  Preparing and resetting both return to the
   beginning: nothing of the past is heard again.

   A frame of the recording harness's effect is reversed, scaled by its number
   modulo three plus one, and offset by a constant per channel.              *)
EXTENDS Integers, Sequences
VARIABLE st   \* F, H, ch; past: one sequence of samples per channel

NoneYet == [F |-> 0, H |-> 0, ch |-> 0, past |-> <<>>]
Fresh(f, h, c) == [F |-> f, H |-> h, ch |-> c, past |-> [k \in 1..c |-> <<>>]]

(* number of complete frames in n samples *)
Complete(n, f, h) == IF n < f THEN 0 ELSE ((n - f) \div h) + 1
(* samples are multiples of F, so the window factor is exact *)
FrameIn(p, k, f, h) == [i \in 1..f |-> (p[k * h + i] * 2 * h) \div f]
Effect(k, c, fr, f) == [i \in 1..f |-> fr[f + 1 - i] * (1 + (k % 3)) + (k % 2) * c]

RECURSIVE SumFrames(_, _, _, _, _, _)
SumFrames(k, last, m, p, c, fh) ==
    IF k > last THEN 0
    ELSE LET fr == FrameIn(p, k, fh.F, fh.H)
             i  == fh.F - (m - k * fh.H)      \* reversed position
         IN fr[i] * (1 + (k % 3)) + (k % 2) * c + SumFrames(k + 1, last, m, p, c, fh)

(* sample m >= 0 of the overlapped sum: the frames that cover m *)
Sum(m, p, c, fh) ==
    LET first == IF m < fh.F THEN 0 ELSE ((m - fh.F) \div fh.H) + 1
        last  == m \div fh.H
    IN SumFrames(first, last, m, p, c, fh)

(* output sample at absolute time t *)
OutAt(t, p, c, fh) == IF t < fh.F - 1 THEN 0 ELSE Sum(t - (fh.F - 1), p, c, fh)

After(x) == [c \in 1..st.ch |-> st.past[c] \o x[c]]
Output(x) ==
    LET all == After(x)
    IN [c \in 1..st.ch |->
          LET n0 == Len(st.past[c])
          IN [i \in 1..Len(x[c]) |-> OutAt(n0 + i - 1, all[c], c, st)]]
(* the frames handed to the effect while block x is processed: one entry per
   frame and channel, in order                                              *)
FramesDue(x) ==
    LET all == After(x)
        k0  == Complete(Len(st.past[1]), st.F, st.H)
        k1  == Complete(Len(all[1]), st.F, st.H)
    IN [q \in 1..((k1 - k0) * st.ch) |->
          FrameIn(all[((q - 1) % st.ch) + 1], k0 + ((q - 1) \div st.ch), st.F, st.H)]

StreamInit == st = NoneYet
Prepare(f, h, c) == st' = Fresh(f, h, c)
Reset == st' = Fresh(st.F, st.H, st.ch)
Feed(x) == st' = [st EXCEPT !.past = After(x)]
==========================================================================
