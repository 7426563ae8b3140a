------------------------------- MODULE Bench -------------------------------
(* The plugin's editor: its labels and the tab that renders offline.

   b.files maps names to recordings (a file is never changed by the plugin),
   b.spec is the last specification of the host <<rate, block, channels>>,
   b.sig and b.imp are the chosen signal and impulse (0: none), and the rest
   are the settings of the tab.  Recordings count as they sound at the rate of
   the host at any time: a new rate loads them again.

   Engines: 0..4 the library's dense convolvers, 5 JUCE's, 6 the simple effect,
   7 the dense effect (late by its frame less one), 8 the sparse convolver; 9 and
   10 write no file.                                                         *)
EXTENDS Taps
VARIABLE b
Signals == 1..3
Impulses == 4..6
Damaged == 7
NoFile == [kind |-> "none"]
Editor(z) == [z EXCEPT !.sig = 0, !.imp = 0, !.range = 900, !.weighted = TRUE, !.keep = 10]
Fresh == [files |-> [f \in 1..7 |-> NoFile], spec |-> <<44100, 512, 2>>, sig |-> 0, imp |-> 0, range |-> 900, weighted |-> TRUE, keep |-> 10, open |-> FALSE]

CeilDiv(n, d) == (n + d - 1) \div d
(* n / d to the nearest whole number, halves to the even one, at least one *)
Rounded(n, d) == LET q == n \div d r == n % d
                     v == IF (2 * r > d) \/ ((2 * r = d) /\ ((q % 2) = 1)) THEN q + 1 ELSE q
                 IN IF v < 1 THEN 1 ELSE v
RECURSIVE Spread(_, _, _, _, _)
(* sample p of the recording is heard at the positions k with p = floor(k from / to) *)
Spread(x, i, from, to, len) ==
    IF i > Len(x) THEN <<>>
    ELSE LET lo == CeilDiv(x[i][1] * to, from) hi == CeilDiv((x[i][1] + 1) * to, from) - 1
             top == IF hi < len THEN hi ELSE len - 1
         IN [k \in 1..(IF top < lo THEN 0 ELSE (top - lo) + 1) |-> <<(lo + k) - 1, x[i][2]>>] \o Spread(x, i + 1, from, to, len)
At(z, f, rate) == LET g == z.files[f] len == Rounded(g.len * rate, g.rate)
               IN IF g.rate = rate THEN g
                  ELSE [kind |-> "audio", rate |-> rate, len |-> len, x |-> [c \in 1..Len(g.x) |-> Spread(g.x[c], 1, g.rate, rate, len)]]
Rate(z) == z.spec[1]
Signal(z) == At(z, z.sig, Rate(z))
Impulse(z) == At(z, z.imp, Rate(z))

(* ---------------------------------------------------------- what is shown *)
Labels(z) == <<z.spec[3], z.spec[2], z.spec[1]>>
HeadSize == 512
Bins == 513
(* 2000 log10 v *)
Hundredths == <<0, 602, 954, 1204, 1398, 1556, 1690, 1806, 1908>>
Segments(g) == IF g.len <= HeadSize THEN 0 ELSE CeilDiv(g.len - HeadSize, HeadSize)
Within(g, c, s) == {i \in 1..Len(g.x[c]) : g.x[c][i][1] \div HeadSize = s}
(* each segment of the tail is silent or a single sample: all its bins are equally loud *)
Flat(g) == /\ \A c \in 1..Len(g.x), s \in 1..Segments(g) : Cardinality(Within(g, c, s)) <= 1
           /\ \E c \in 1..Len(g.x), s \in 1..Segments(g) : Within(g, c, s) # {}
Size(g, c, s) == IF Within(g, c, s) = {} THEN 0 ELSE Abs(g.x[c][CHOOSE i \in Within(g, c, s) : TRUE][2])
Loudest(g) == LET S == {Size(g, c, s) : c \in 1..Len(g.x), s \in 1..Segments(g)} IN CHOOSE v \in S : \A w \in S : w <= v
Floor == -7200
Level(g, c, s, top) == IF Size(g, c, s) = 0 THEN Floor ELSE Hundredths[Size(g, c, s)] - Hundredths[top]
(* how many bins of the tail lie more than m above the dynamic range *)
RECURSIVE CountFrom(_, _, _, _)
CountFrom(w, level, limit, k) == IF k = 0 THEN 0 ELSE (IF level + w[k] > limit THEN 1 ELSE 0) + CountFrom(w, level, limit, k - 1)
Above(z, w, level, m) == IF z.weighted THEN CountFrom(w, level, m - (10 * z.range), Bins)
                      ELSE IF level > m - (10 * z.range) THEN Bins ELSE 0
RECURSIVE CountAll(_, _, _, _, _, _, _)
CountAll(z, g, w, top, m, c, s) ==
    IF c > Len(g.x) THEN 0
    ELSE IF s > Segments(g) THEN CountAll(z, g, w, top, m, c + 1, 1)
    ELSE Above(z, w, Level(g, c, s, top), m) + CountAll(z, g, w, top, m, c, s + 1)
Count(z, g, w, m) == CountAll(z, g, w, Loudest(g), m, 1, 1)
Total(g) == Len(g.x) * Segments(g) * Bins
(* pct: hundredths of a percent; w: the weights in hundredths of a decibel *)
Share(z, g, w, pct) == ((Count(z, g, w, 3) * 10000) \div Total(g)) - 1 <= pct /\ pct <= ((Count(z, g, w, -3) * 10000) \div Total(g)) + 2

(* --------------------------------------------------------- what is written *)
Usable(z) == z.sig # 0 /\ z.imp # 0 /\ z.files[z.sig].kind = "audio"
Plain(z) == LET x == Signal(z) h == Impulse(z) IN [x EXCEPT !.x = [c \in 1..Len(x.x) |-> Channel(x.x[c], h.x[c], x.len)]]
RECURSIVE PowerFrom(_, _)
PowerFrom(n, p) == IF p >= n THEN p ELSE PowerFrom(n, 2 * p)
Lateness(z) == PowerFrom(z.spec[2], 1) - 1
Shift(q, d, len) == LET k == Cardinality({i \in 1..Len(q) : q[i][1] + d < len}) IN [i \in 1..k |-> <<q[i][1] + d, q[i][2]>>]
Late(y, d) == [y EXCEPT !.x = [c \in 1..Len(y.x) |-> Shift(y.x[c], d, y.len)]]
RenderBlock == 4096
(* the simple effect takes whole blocks only *)
Aligned(engines, len) == {e \in engines : e \in 0..5 \/ (e = 6 /\ (len % RenderBlock) = 0)}
Writing(engines) == {e \in engines : e \in 0..8}

(* ---------------------------------------------------------------- actions *)
Put(f, g) == b' = [b EXCEPT !.files[f] = g]
Open == b' = [Editor(b) EXCEPT !.open = TRUE]
Close == b' = [b EXCEPT !.open = FALSE]
Prepare(rate, block, ch) == b' = [b EXCEPT !.spec = <<rate, block, ch>>]
(* a choice that is cancelled, or of a file that is not there, changes nothing *)
ChooseSignal(f) == b' = IF f \in 1..7 THEN [b EXCEPT !.sig = f] ELSE b
(* nor does one of an impulse that cannot be read *)
ChooseImpulse(f) == b' = IF f \in 1..6 THEN [b EXCEPT !.imp = f] ELSE b
Turn(range, weighted, keep) == b' = [b EXCEPT !.range = range, !.weighted = weighted, !.keep = keep]
Render == UNCHANGED b
===========================================================================
