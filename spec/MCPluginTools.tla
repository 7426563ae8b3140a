-------------------------- MODULE MCPluginTools --------------------------
(* Every small spectrogram: each bin is counted once, a weaker bin never in an
   earlier slot, equal weights shift all slots alike; every small recording:
   resampling there and back by a whole ratio returns it, blocks add up.     *)
EXTENDS PluginTools
CONSTANTS Levels, Weights, MaxLen, Vals
VARIABLES d, w, q, last
Init == /\ d \in [1..2 -> [1..2 -> Levels]] /\ w \in [1..2 -> Weights]
        /\ q \in UNION {[1..n -> Vals] : n \in 1..MaxLen}
        /\ st = Nothing /\ last = Nothing
Write == \E f \in {1, 2}, r \in {1, 2} : Put(f, Recording(r, <<q>>)) /\ last' = [last EXCEPT ![f] = Recording(r, <<q>>)] /\ UNCHANGED <<d, w, q>>
Drop == \E f \in {1, 2} : Put(f, Damaged) /\ last' = [last EXCEPT ![f] = Damaged] /\ UNCHANGED <<d, w, q>>
Next == Write \/ Drop
RECURSIVE Total(_, _)
Total(h, n) == IF n = 0 THEN 0 ELSE h[n] + Total(h, n - 1)
CountedOnce == \E h \in {Histogram(d, w)} : Total(h, Slots) = 4
Monotone == \A a, b \in Cells(d) : (d[a[1]][a[2]] <= d[b[1]][b[2]] /\ w[a[2]] >= w[b[2]]) => Slot(d[a[1]][a[2]], w[a[2]]) <= Slot(d[b[1]][b[2]], w[b[2]])
SlotsExist == \A a \in Cells(d) : Slot(d[a[1]][a[2]], w[a[2]]) \in 0..(Slots - 1)
(* what the image shows at a threshold between two slots is what the histogram counts above it *)
ImageAgrees == \A t \in {100, 300, 500} :
    Cardinality({p \in (1..2) \X (1..2) : Dark(d, w, -t, p[1], p[2])}) = Cardinality({c \in Cells(d) : Weighted(d[c[1]][c[2]], w[c[2]]) >= -t})
UpAndDown == \A m \in 1..3 : Sampled(Sampled(q, 1, m), m, 1) = q
SampledIsHeard == \A a, b \in 1..4 : Hears(Sampled(q, a, b), q, a, b)
SameRate == Sampled(q, 2, 2) = q
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
BlocksAddUp == \A n \in 0..7, b \in 1..4 : SumOf(Cut(n, b)) = n /\ \A i \in 1..Len(Cut(n, b)) : Cut(n, b)[i] \in 1..b /\ (i < Len(Cut(n, b)) => Cut(n, b)[i] = b)
LastWriteWins == \A f \in Names : st[f] = last[f]
==========================================================================
