--------------------------- MODULE TraceSparse ---------------------------
EXTENDS TraceBase, Sparse
Init == TraceInit /\ st = [o \in Objects |-> None]
Act == \/ Is("begin")  /\ st' = [o \in Objects |-> None]
       \/ Is("filter") /\ SpLoad(Ev.o, Ev.scheme, Ev.b, Ev.h, Ev.masks) /\ Ev.asked = TRUE
       \/ Is("block")  /\ Ev.y = SpOut(Ev.o, Ev.x) /\ Ev.guard = TRUE /\ SpStep(Ev.o, Ev.x)
       \/ Is("copy")   /\ st' = [st EXCEPT ![Ev.o] = st[Ev.p]]
       (* any sparsity: the same samples as a dense convolver whose filter has zeros in place of the dropped bins *)
       \/ /\ Is("relate") /\ Len(Ev.sparse) = Len(Ev.dense)
          /\ (\A i \in 1..Len(Ev.sparse) : Abs(Ev.sparse[i] - Ev.dense[i]) <= Ev.tol) /\ UNCHANGED st
Next == \/ Act /\ Consume
        \/ Done /\ UNCHANGED st
==========================================================================
