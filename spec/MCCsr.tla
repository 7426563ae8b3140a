------------------------------ MODULE MCCsr ------------------------------
(* The compressed-row representation (values, column indices, row pointers)
   and its insertion algorithm refine the abstract sparse matrix. *)
EXTENDS Csr, Sequences
CONSTANTS Rows, Cols, MaxInserts
VARIABLES vals, cols, ptr, n
vars == <<dims, store, vals, cols, ptr, n>>
Vals == {<<1, 0>>, <<0, 2>>}
Init == /\ dims = <<Rows, Cols>> /\ store = [p \in {} |-> Zero]
        /\ vals = <<>> /\ cols = <<>> /\ ptr = [r \in 0..Rows |-> 0] /\ n = 0
InsertAt(q, k, e) == SubSeq(q, 1, k) \o <<e>> \o SubSeq(q, k + 1, Len(q))
(* first index of the row whose column is not smaller *)
Scan(r, c) == LET S == {i \in ptr[r]..(ptr[r + 1] - 1) : cols[i + 1] >= c}
              IN  IF S = {} THEN ptr[r + 1] ELSE CHOOSE i \in S : \A j \in S : i <= j
Ins(r, c, v) ==
    LET k == Scan(r, c) IN
    /\ Insert(<<r, c>>, v) /\ n' = n + 1
    /\ IF k < ptr[r + 1] /\ cols[k + 1] = c
       THEN vals' = [vals EXCEPT ![k + 1] = v] /\ UNCHANGED <<cols, ptr>>
       ELSE /\ vals' = InsertAt(vals, k, v) /\ cols' = InsertAt(cols, k, c)
            /\ ptr' = [i \in 0..Rows |-> IF i > r THEN ptr[i] + 1 ELSE ptr[i]]
Next == n < MaxInserts /\ \E r \in 0..(Rows - 1), c \in 0..(Cols - 1), v \in Vals : Ins(r, c, v)
Refines == /\ Len(vals) = Len(cols) /\ ptr[0] = 0 /\ ptr[Rows] = Len(vals)
           /\ \A r \in 0..(Rows - 1) :
                 /\ ptr[r] <= ptr[r + 1]
                 /\ \A i \in ptr[r]..(ptr[r + 1] - 1) : <<r, cols[i + 1]>> \in DOMAIN store /\ store[<<r, cols[i + 1]>>] = vals[i + 1]
                 /\ \A i \in ptr[r]..(ptr[r + 1] - 2) : cols[i + 1] < cols[i + 2]
           /\ Cardinality(DOMAIN store) = Len(vals)
==========================================================================
