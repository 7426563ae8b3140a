----------------------------- MODULE TraceCsr -----------------------------
EXTENDS TraceBase, Csr
VARIABLE filled
El(q, k) == <<q[2 * k - 1], q[2 * k]>>
Els(q) == [k \in 1..(Len(q) \div 2) |-> El(q, k)]
DenseOf(q, d) == [p \in Positions(d) |-> El(q, (p[1] * d[2]) + p[2] + 1)]
Keep(f, r, c, v) == CASE f = "all"   -> TRUE
                      [] f = "none"  -> FALSE
                      [] f = "nz"    -> v # Zero
                      [] f = "evencol" -> c % 2 = 0
                      [] f = "notrow1" -> r # 1
                      [] f = "upper" -> r <= c
                      [] f = "neg"   -> v[1] < 0
Dump ==   (* everything observable of the matrix agrees with the state *)
    /\ Ev.dims = dims /\ Ev.rc = dims /\ Ev.size = dims[1] * dims[2]
    /\ \A p \in Positions(dims) : El(Ev.dense, (p[1] * dims[2]) + p[2] + 1) = Read(p)
    /\ Len(Ev.ptr) = dims[1] + 1 /\ Ev.ptr[1] = 0 /\ Ev.ptr[dims[1] + 1] = Len(Ev.cols)
    /\ Len(Ev.vals) = 2 * Len(Ev.cols)
    /\ Cardinality(DOMAIN store) = Len(Ev.cols)
    /\ \A r \in 0..(dims[1] - 1) :
          /\ Ev.ptr[r + 1] <= Ev.ptr[r + 2]
          /\ \A i \in (Ev.ptr[r + 1] + 1)..Ev.ptr[r + 2] :
                <<r, Ev.cols[i]>> \in DOMAIN store /\ store[<<r, Ev.cols[i]>>] = El(Ev.vals, i)
          /\ \A i, j \in (Ev.ptr[r + 1] + 1)..Ev.ptr[r + 2] : i # j => Ev.cols[i] # Ev.cols[j]
Init == TraceInit /\ dims = <<0, 0>> /\ store = [p \in {} |-> Zero] /\ filled = FALSE
Act == \/ Is("new")   /\ NewMatrix(Ev.d)
       \/ Is("dense") /\ FromDense(Ev.d, DenseOf(Ev.m, Ev.d), LAMBDA r, c, v : Keep(Ev.f, r, c, v))
       \/ Is("insert") /\ Insert(<<Ev.r, Ev.c>>, Ev.val)
       \/ Is("dump")  /\ TRUE = Dump /\ UNCHANGED <<dims, store>>
       \/ /\ Is("madd") /\ UNCHANGED <<dims, store>>
          /\ Els(Ev.after) = MulAddRow(Ev.r, Els(Ev.x), Els(Ev.z), Els(Ev.before)) /\ Ev.guard = TRUE
Next == \/ Act /\ Consume /\ UNCHANGED filled
        \/ Done /\ UNCHANGED <<dims, store, filled>>
==========================================================================
