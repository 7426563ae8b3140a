--------------------------- MODULE PluginTools ---------------------------
(* The plugin's files and measurements as its user sees them.

   st maps file names to what they hold: nothing, something that is not audio,
   or a recording: a rate and channels of samples.  Writing replaces, loading
   returns what was written last, loading at another rate returns the samples
   at the same points in time.

   Levels are in tenths of a decibel below the loudest bin (a natural number;
   Silent: no energy at all); weights are in tenths of a decibel.            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE st
Names == 1..3
NoFile == [kind |-> "none"]
Damaged == [kind |-> "damaged"]
Recording(rate, x) == [kind |-> "audio", rate |-> rate, x |-> x]
Nothing == [f \in Names |-> NoFile]
Put(f, c) == st' = [st EXCEPT ![f] = c]
Readable(f) == st[f].kind = "audio"
Length(x) == IF Len(x) = 0 THEN 0 ELSE Len(x[1])

(* n samples at rate a last as long as this many at rate b; at least one *)
AtLeastOne(n) == IF n < 1 THEN 1 ELSE n
Resized(n, a, b) == AtLeastOne(((2 * n * b) + a) \div (2 * a))
Sampled(q, a, b) == [k \in 1..Resized(Len(q), a, b) |->
                       LET p == ((k - 1) * a) \div b IN IF p < Len(q) THEN q[p + 1] ELSE 0]
(* what is heard at rate b of samples q at rate a; at a tie of rounding either length will do *)
LengthOk(len, n, a, b) == len >= 1 /\ ((len = 1 /\ n * b < a) \/ ((2 * a * len <= (2 * n * b) + a) /\ (2 * a * len >= (2 * n * b) - a)))
Hears(y, q, a, b) == LengthOk(Len(y), Len(q), a, b) /\ y = [k \in 1..Len(y) |-> LET p == ((k - 1) * a) \div b IN IF p < Len(q) THEN q[p + 1] ELSE 0]
AtRate(f, b) == IF st[f].rate = b THEN st[f].x
                ELSE [c \in 1..Len(st[f].x) |-> Sampled(st[f].x[c], st[f].rate, b)]

(* the blocks a stream of n samples is processed in *)
RECURSIVE Cut(_, _)
Cut(n, b) == IF n = 0 THEN <<>> ELSE IF n <= b THEN <<n>> ELSE <<b>> \o Cut(n - b, b)

Floor == 720                       \* nothing counts as further below than this
Silent == 9999
Slots == 144
Weighted(d, w) == (IF d > Floor THEN -Floor ELSE -d) + w
Clamp(v) == IF v < -1430 THEN -1430 ELSE IF v > 0 THEN 0 ELSE v
Slot(d, w) == ((-Clamp(Weighted(d, w))) + 5) \div 10
Rows(d) == 1..Len(d)
Cells(d) == {<<f, b>> : f \in Rows(d), b \in 1..(IF Len(d) = 0 THEN 0 ELSE Len(d[1]))}
(* d: frames of bins; w: one weight per bin *)
Histogram(d, w) == [k \in 1..Slots |-> Cardinality({c \in Cells(d) : Slot(d[c[1]][c[2]], w[c[2]]) = k - 1})]
(* pixel (x, y): frames from left to right, bins from the bottom up *)
Dark(d, w, t, x, y) == LET b == Len(w) - y + 1 IN Weighted(d[x][b], w[b]) >= t
Tallest(h) == CHOOSE m \in {h[k] : k \in 1..(Slots - 1)} : \A k \in 1..(Slots - 1) : h[k] <= m
==========================================================================
