----------------------------- MODULE MCPlugin -----------------------------
(* How the saved state follows the parameters: changes reach the state tree when
   the message loop runs, or when the state is copied (Flushes).  Every saved
   state must hold the parameters of that moment, and restoring brings them back;
   the balanced mix never weakens the sum and is one-sided at both ends.      *)
EXTENDS Plugin, TLC
CONSTANTS Slots, Levels, Flushes
VARIABLES param, tree, saved, truth
vars == <<param, tree, saved, truth>>
Sets == [Knobs -> Levels]
Start == [k \in Knobs |-> CHOOSE l \in Levels : TRUE]
MInit == param = Start /\ tree = Start /\ saved = [s \in Slots |-> Start] /\ truth = saved /\ p = 0 /\ st = 0
Change(k, l) == param' = [param EXCEPT ![k] = l] /\ UNCHANGED <<tree, saved, truth>>
Idle == tree' = param /\ UNCHANGED <<param, saved, truth>>
Save(s) == /\ tree' = IF Flushes THEN param ELSE tree
           /\ saved' = [saved EXCEPT ![s] = tree'] /\ truth' = [truth EXCEPT ![s] = param] /\ UNCHANGED param
Restore(s) == tree' = saved[s] /\ param' = saved[s] /\ UNCHANGED <<saved, truth>>
MNext == /\ UNCHANGED <<p, st>>
         /\ \/ \E k \in Knobs, l \in Levels : Change(k, l)
            \/ Idle \/ \E s \in Slots : Save(s) \/ Restore(s)
Faithful == saved = truth
Mix == /\ \A k \in 0..4 : DryWeight(k) \in 0..4 /\ WetWeight(k) \in 0..4 /\ Max(DryWeight(k), WetWeight(k)) = 4
       /\ DryWeight(4) = 0 /\ WetWeight(0) = 0 /\ DryWeight(2) = WetWeight(2)
       /\ \A k \in 0..4 : DryWeight(k) = WetWeight(4 - k)
       /\ Gain(2) = 4 /\ Gain(4) = 16 /\ Gain(0) = 0
==========================================================================
