------------------------------ MODULE MCPart ------------------------------
(* Design model: partitioned overlap-save and overlap-add convolution refine the
   user's view (Stream) for every input over {0, 1, -2} and every response of
   distinct powers of two (any misplaced, missing or doubled product shows).  *)
EXTENDS PartConv, Stream
CONSTANTS Blk, Segs, LastLen, Steps, Scheme
Vals == {0, 1, -2}
VARIABLES t, lastx, lasty
h0 == [i \in 1..((Segs - 1) * Blk + LastLen) |-> 2 ^ (i - 1)]
Init == /\ PartInit(Blk, Segs) /\ st = [o \in Objects |-> Loaded(h0)]
        /\ t = 0 /\ lastx = <<>> /\ lasty = <<>>
Next == IF t = Steps THEN UNCHANGED <<ring, wp, win, ov, st, t, lastx, lasty>> ELSE
        \E x \in [1..Blk -> Vals] :
          /\ t' = t + 1
          /\ IF Scheme = 0 THEN OlsStep(x, h0, Blk) ELSE OlaStep(x, h0, Blk)
          /\ lastx' = Response(0, x)
          /\ lasty' = IF Scheme = 0 THEN OlsOut(x, h0, Blk) ELSE OlaOut(x, h0, Blk)
          /\ Process(0, x)
(* the sparse evaluation used on traces is the definition *)
Same == \A i \in 1..3 : SparseDot(<<1, -2, 3>>, h0, Support(h0), i - 1, 1) = ConvAt(<<1, -2, 3>>, h0, i - 1)
Refines == Same /\ lastx = lasty
==========================================================================
