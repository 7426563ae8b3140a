----------------------------- MODULE MCChunk -----------------------------
(* Design model: the chunked convolver refines the user's view (Stream) for every
   input over {0, 1} and every cut of the input into chunks of MinChunk..MaxChunk. *)
EXTENDS ChunkConv, Stream
CONSTANTS Blk, Segs, LastLen, Total, MinChunk, MaxChunk
VARIABLES t, want, got
h0 == [i \in 1..((Segs - 1) * Blk + LastLen) |-> 2 ^ (i - 1)]
Init == /\ CInit(Blk, Segs) /\ st = [o \in Objects |-> Loaded(h0)]
        /\ t = 0 /\ want = <<>> /\ got = <<>>
Next == IF t + MinChunk > Total THEN UNCHANGED <<cpos, ccur, cring, cwin, ctmp, cov, st, t, want, got>> ELSE
        \E n \in MinChunk..Min(MaxChunk, Total - t) : \E x \in [1..n -> {0, 1}] :
          /\ t' = t + n
          /\ ChunkStep(x, h0, Blk)
          /\ want' = Response(0, x) /\ got' = ChunkOut(x, h0, Blk)
          /\ Process(0, x)
(* the sparse evaluation used on traces is the definition *)
Same == \A i \in 1..3 : SparseDot(<<1, -2, 3>>, h0, Support(h0), i - 1, 1) = ConvAt(<<1, -2, 3>>, h0, i - 1)
Refines == Same /\ want = got
==========================================================================
