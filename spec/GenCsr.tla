------------------------------ MODULE GenCsr ------------------------------
(* Random histories of the sparse-matrix machine:
   <<rows, cols, filter, (kind, row, col, value)*>>; filter 0 = start empty,
   otherwise start from a dense matrix through that filter; kind 1 = insert,
   2 = multiply_add with that row.                                          *)
EXTENDS Csr, Sequences, TLC
CONSTANT Length
VARIABLES hist, body
Init == /\ \E r \in {1, 2, 3, 5}, c \in {1, 2, 4, 7}, f \in 0..6 : dims = <<r, c>> /\ hist = <<r, c, f>>
        /\ store = [p \in {} |-> Zero] /\ body = <<>>
Next == IF Len(body) < 4 * Length
        THEN /\ hist' = hist
             /\ \E r \in {RandomElement(0..(dims[1] - 1))}, c \in {RandomElement(0..(dims[2] - 1))}, v \in {RandomElement(-20..20)} :
                   \/ Insert(<<r, c>>, <<v, 0>>) /\ body' = body \o <<1, r, c, v>>
                   \/ Insert(<<r, c>>, <<v, 1>>) /\ body' = body \o <<1, r, c, v>>
                   \/ UNCHANGED <<dims, store>> /\ body' = body \o <<2, r, c, v>>
        ELSE PrintT(<<"SCENARIO", hist \o body>>) /\ body' = <<>> /\ UNCHANGED <<dims, store, hist>>
==========================================================================
