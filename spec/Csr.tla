------------------------------- MODULE Csr -------------------------------
(* Sparse matrix: which positions are stored, and their values (Gaussian
   integers).  Positions are 0-based <<row, col>> pairs as in the code.      *)
EXTENDS Gauss, FiniteSets
VARIABLES dims, store          \* <<rows, cols>>, function from stored positions to values
Zero == <<0, 0>>
Positions(d) == (0..(d[1] - 1)) \X (0..(d[2] - 1))
Read(p) == IF p \in DOMAIN store THEN store[p] ELSE Zero

NewMatrix(d) == dims' = d /\ store' = [p \in {} |-> Zero]
(* M: dense matrix as a function of positions *)
FromDense(d, M, Keep(_, _, _)) ==
    /\ dims' = d
    /\ store' = [p \in {q \in Positions(d) : Keep(q[1], q[2], M[q])} |-> M[p]]
Insert(p, v) ==
    /\ p \in Positions(dims)
    /\ store' = [q \in DOMAIN store \cup {p} |-> IF q = p THEN v ELSE store[q]]
    /\ dims' = dims
(* out' = x * row + z at the stored columns, untouched elsewhere; x, z, out: sequences of elements *)
MulAddRow(r, x, z, out) ==
    [i \in 1..Len(out) |-> IF <<r, i - 1>> \in DOMAIN store
                           THEN GAdd(GMul(x[i], store[<<r, i - 1>>]), z[i])
                           ELSE out[i]]
==========================================================================
