------------------------- MODULE TracePluginTools -------------------------
EXTENDS TraceBase, PluginTools
Init == TraceInit /\ st = Nothing
(* height of a bar of h in an image of 250 pixels: either neighbour at a tie *)
BarOk(p, h, m) == 2 * m * p <= (500 * h) + m /\ 2 * m * p >= (500 * h) - m
Pure(e) ==
  CASE e.op = "blocks" ->
         /\ e.prep = <<e.bs, Len(e.x), e.rate>> /\ e.preps = 1 /\ e.resets = 1 /\ e.order
         /\ e.sizes = Cut(Length(e.x), e.bs)
         /\ e.seen = e.x /\ e.out = [c \in 1..Len(e.x) |-> [i \in 1..Len(e.x[c]) |-> (2 * e.x[c][i]) + c]] /\ e.guard
    [] e.op = "mdarray" -> e.y = e.x
    [] e.op = "hist" -> \E h \in {Histogram(e.d, e.w)} : e.h = h /\ e.calls
    [] e.op = "image" ->
         /\ e.width = Len(e.d) /\ e.height = Len(e.w) /\ e.calls
         /\ \A x \in 1..Len(e.d) : \A y \in 1..Len(e.w) : e.px[y][x] = (IF Dark(e.d, e.w, e.t, x, y) THEN 0 ELSE 1)
    [] e.op = "bars" ->
         \E h \in {Histogram(e.d, e.w)} : \E m \in {Tallest(h)} :
           /\ e.width = 8 * (Slots - 1) /\ e.height = 250
           /\ \A k \in 1..(Slots - 1) : (k - 1) \in {32, 64, 96} \/ BarOk(e.bars[k], h[k], m)
    [] OTHER -> FALSE
LoadOk(e) == IF Readable(e.f) THEN e.y = st[e.f].x /\ e.rate = st[e.f].rate ELSE e.y = <<>>
RateOk(e) == IF Readable(e.f) THEN /\ e.rate = e.to /\ Len(e.y) = Len(st[e.f].x)
                                   /\ IF st[e.f].rate = e.to THEN e.y = st[e.f].x
                                      ELSE \A c \in 1..Len(e.y) : Hears(e.y[c], st[e.f].x[c], st[e.f].rate, e.to)
                                 ELSE e.y = <<>>
Act == \/ Is("begin") /\ st' = Nothing
       \/ Is("put") /\ Put(Ev.f, IF Ev.kind = "none" THEN NoFile ELSE Damaged)
       \/ Is("write") /\ Ev.bits = Ev.asked /\ ~Ev.tail /\ Ev.guard /\ Put(Ev.f, Recording(Ev.rate, Ev.x))
       \/ Is("load") /\ (TRUE = LoadOk(Ev)) /\ UNCHANGED st
       \/ Is("loadat") /\ (TRUE = RateOk(Ev)) /\ UNCHANGED st
       \/ /\ More /\ Ev.op \in {"blocks", "mdarray", "hist", "image", "bars"}
          /\ TRUE = Pure(Ev) /\ UNCHANGED st
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED st
==========================================================================
