---------------------------- MODULE TraceBench ----------------------------
EXTENDS TraceBase, Bench
VARIABLE w          \* the weights of the bins, by rate
Init == TraceInit /\ b = Fresh /\ w = <<>>
Pairs(q) == [i \in 1..(Len(q) \div 2) |-> <<q[(2 * i) - 1], q[2 * i]>>]
File(e) == IF e.kind = "audio" THEN [kind |-> "audio", rate |-> e.rate, len |-> e.len, x |-> [c \in 1..Len(e.x) |-> Pairs(e.x[c])]] ELSE [kind |-> "damaged"]
Weights(z) == IF Rate(z) = 44100 THEN w[1] ELSE IF Rate(z) = 16000 THEN w[2] ELSE w[3]
Frames(n) == CeilDiv(n, 512)
Shown(z, e) ==
    IF z.imp = 0 THEN e.w = 0 /\ e.h = 0 /\ e.pct = -1
    ELSE \E g \in {Impulse(z)} :
           /\ e.h = Bins /\ e.w = Frames(g.len) /\ e.same /\ e.name /\ e.count = g.len
           /\ IF g.len <= HeadSize THEN e.pct = -1
              ELSE /\ e.thr = -(z.range) /\ e.wname = z.weighted /\ (Flat(g) => e.pct \in 0..10000 /\ Share(z, g, Weights(z), e.pct))
(* y: ten thousandths of full scale *)
Tol == 8
Shows(y, f) ==
    /\ \E pk \in {Peak(f)} :
         \/ pk = 0
         \/ \A c \in 1..Len(f.x) :
              \E yc \in {Pairs(y.x[c])} :
                /\ Len(yc) = Len(f.x[c])
                /\ \A k \in 1..Len(f.x[c]) : yc[k][1] = f.x[c][k][1] /\ Abs((yc[k][2] * pk) - (10000 * f.x[c][k][2])) <= Tol * pk
Formal(y, x) == y.rate = Rate(b) /\ y.bits = 32 /\ y.len = x.len /\ Len(y.x) = Len(x.x)
Written(e) ==
    \E set \in {{e.engines[i] : i \in 1..Len(e.engines)}} :
    IF ~Usable(b) THEN e.files = <<>> /\ e.lines = 0
    ELSE \E p \in {Plain(b)} :
         /\ Len(e.files) = Cardinality(Writing(set))
         /\ \A i \in 1..Len(e.files) : Formal(e.files[i], p)
         /\ e.lines = Len(e.files)
         /\ Cardinality({i \in 1..Len(e.files) : Shows(e.files[i], p)}) >= Cardinality(Aligned(set, p.len))
         /\ 7 \in set => \E d \in {Late(p, Lateness(b))} : \E i \in 1..Len(e.files) : Shows(e.files[i], d)
         /\ 8 \in set => \E i \in 1..Len(e.files) : e.files[i].sparse
Rendered(e) == e.others /\ e.place /\ e.kept /\ Written(e)
Near(a, r) == Abs(a - r) <= 30 + (r \div 500)
Quality(e) ==
    /\ e.fresh = 0 /\ e.others /\ e.done
    /\ Len(e.vals) = 180 /\ \A k \in 1..180 : Abs(e.levels[k] - (90000 - ((k - 1) * 89000) \div 179)) <= 1
    /\ \A k \in 1..(Len(e.refs) \div 2) : Near(e.vals[e.refs[(2 * k) - 1]], e.refs[2 * k])
Act == \/ Is("begin") /\ b' = Fresh /\ w' = <<Ev.w44100, Ev.w16000, Ev.w8000>>
       \/ Is("put") /\ Put(Ev.f, File(Ev)) /\ UNCHANGED w
       \/ Is("editor") /\ Open /\ Ev.labels = Labels(b') /\ UNCHANGED w
       \/ Is("prepare") /\ Prepare(Ev.rate, Ev.B, Ev.ch) /\ Ev.labels = Labels(b') /\ (TRUE = Shown(b', Ev)) /\ UNCHANGED w
       \/ Is("alone") /\ ~b.open /\ Prepare(Ev.rate, Ev.B, Ev.ch) /\ UNCHANGED w
       \/ Is("signal") /\ Ev.asked = 1 /\ ChooseSignal(Ev.f) /\ UNCHANGED w
       \/ Is("impulse") /\ Ev.asked = 1 /\ ChooseImpulse(Ev.f) /\ (TRUE = Shown(b', Ev)) /\ UNCHANGED w
       \/ Is("turn") /\ Turn(Ev.range, Ev.weighted, Ev.keep) /\ (TRUE = Shown(b', Ev)) /\ UNCHANGED w
       \/ Is("render") /\ (TRUE = Rendered(Ev)) /\ Render /\ UNCHANGED w
       \/ Is("quality") /\ (TRUE = Quality(Ev)) /\ Render /\ UNCHANGED w
       \/ Is("close") /\ Ev.fresh <= Ev.begun /\ Ev.others /\ Ev.left = 0 /\ Close /\ UNCHANGED w
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED <<b, w>>
===========================================================================
