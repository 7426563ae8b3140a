----------------------------- MODULE TraceFdl -----------------------------
EXTENDS TraceBase, Fdl
(* rows: row index -> flat sequence of integers (re, im interleaved) *)
Init == TraceInit /\ n = 1 /\ wp = 0 /\ rows = <<>>
PairSeq(a, b) == {<<a[i], b[i]>> : i \in 1..Len(a)}
QuantOk(x, q, m, r) == Len(x) = Len(r) /\ \A i \in 1..Len(x) : Nearest(x[i], q, m, r[i])
Act == \/ Is("ring")  /\ FdlNew(Ev.n)
       \/ Is("reset") /\ FdlReset
       \/ /\ Is("turn") /\ Ev.copied = <<wp>> /\ Len(Ev.slots) = n /\ Ev.first = "copy"
          /\ PairSeq(Ev.slots, Ev.filters) = Pairs(wp, n) /\ FdlAdvance
       \/ /\ Is("store") /\ rows' = [r \in 1..Ev.rows |-> Zeros(2 * Ev.cols)] /\ UNCHANGED <<n, wp>>
       \/ /\ Is("insert") /\ rows' = [rows EXCEPT ![Ev.r + 1] = Ev.x] /\ UNCHANGED <<n, wp>> /\ Ev.guard = TRUE
       \/ /\ Is("read") /\ UNCHANGED <<n, wp, rows>>
          /\ \A r \in 1..Len(rows) :
                IF Ev.m = 0 THEN Ev.got[r] = rows[r] ELSE QuantOk(rows[r], Ev.q, Ev.m, Ev.got[r])
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED <<n, wp, rows>>
==========================================================================
