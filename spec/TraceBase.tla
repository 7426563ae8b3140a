---------------------------- MODULE TraceBase ----------------------------
(* Common machinery for every trace specification.

   The conformance harnesses record one JSON object per public API call.
   The trace is cut into sessions [a, b] of consecutive lines: one session is
   one independent behaviour of the specification (objects constructed in a
   session are used only there).  A trace specification

      * starts in any session with the subsystem in its initial state,
      * takes one specification action per recorded line, and
      * is stuck (TLC deadlock) exactly when a recorded line is not a step the
        specification allows.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace    == ndJsonDeserialize(IOEnv.NEO_TRACE)
Sessions == ndJsonDeserialize(IOEnv.NEO_SESSIONS)
Known    == ndJsonDeserialize(IOEnv.NEO_KNOWN)   \* listed known findings

VARIABLES s, l      \* session, next line to consume

TraceInit == s \in 1..Len(Sessions) /\ l = Sessions[s].a
More      == l <= Sessions[s].b
Ev        == Trace[l]
Consume   == l' = l + 1 /\ s' = s
Done      == l > Sessions[s].b /\ UNCHANGED <<s, l>>

Is(op)    == More /\ Ev.op = op

IsKnown(id) == \E i \in 1..Len(Known) : Known[i].id = id
(* A step of the implementation that is a listed known finding. *)
Deviates(id) == IsKnown(id) /\ PrintT(<<"KNOWN-FINDING", id, l>>)
==========================================================================
