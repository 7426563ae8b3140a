------------------------------ MODULE Frames ------------------------------
(* Short-time framing.  A signal of L samples is cut into ceil(L / H) frames,
   H = frame size - overlap; frame f starts at sample f * H, holds up to
   `frame' samples, is multiplied by the window (which spans the transform) and
   padded with zeros to the transform size (the next power of two).  Every
   channel is framed on its own; a plan keeps nothing from call to call.     *)
EXTENDS Conv
Hop(p) == p.frame - p.overlap
NumFrames(p, len) == CeilDiv(len, Hop(p))
FrameN(p) == TransformSize(p.tsize)
NumBins(p) == (FrameN(p) \div 2) + 1
Sample(p, x, f, i) ==    \* sample i (from 0) of frame f before windowing
    IF i < p.frame THEN At0(x, (f * Hop(p)) + i) ELSE 0
(* the windows used with exact integer data *)
Win(kind, i, n) == CASE kind = 0 -> 1
                     [] kind = 1 -> (((3 * i) + n) % 7) - 2
                     [] kind = 2 -> i + 1
FrameData(p, x, f) == [k \in 1..FrameN(p) |-> Win(p.win, k - 1, FrameN(p)) * Sample(p, x, f, k - 1)]
==========================================================================
