----------------------------- MODULE MCBench -----------------------------
(* The machinery behind the render tab: jobs wait for a pool of threads, each
   picks a name that is still free and writes it later, and reports by a message
   that is handled some time after; the host may change the rate, and the user
   close the editor, at any moment.  Reloads: a new rate loads the chosen
   recordings again.  Guarded: a message looks whether its editor is still there.
   Waits: closing waits for the jobs that have begun.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Reloads, Guarded, Waits, MaxJobs, Rates
VARIABLES open, rate, loaded, queue, running, names, mail, made, bad
vars == <<open, rate, loaded, queue, running, names, mail, made, bad>>
Init == /\ open = TRUE /\ rate \in Rates /\ loaded = 0 /\ queue = 0 /\ running = {} /\ names = {} /\ mail = 0 /\ made = 0 /\ bad = {}
Choose == open /\ loaded' = rate /\ UNCHANGED <<open, rate, queue, running, names, mail, made, bad>>
NewRate(r) == rate' = r /\ loaded' = (IF Reloads /\ loaded # 0 /\ open THEN r ELSE loaded) /\ UNCHANGED <<open, queue, running, names, mail, made, bad>>
Click == open /\ loaded # 0 /\ made < MaxJobs /\ queue' = queue + 1 /\ made' = made + 1 /\ UNCHANGED <<open, rate, loaded, running, names, mail, bad>>
Free == CHOOSE n \in 1..(MaxJobs + 1) : n \notin names /\ \A m \in 1..(n - 1) : m \in names
(* a running job is <<job number, name>> *)
Begin == /\ queue > 0 /\ Cardinality(running) < Threads
         /\ queue' = queue - 1 /\ running' = running \cup {<<made - queue, Free>>}
         /\ UNCHANGED <<open, rate, loaded, names, mail, made, bad>>
Finish(j) == /\ j \in running /\ running' = running \ {j} /\ names' = names \cup {j[2]} /\ mail' = mail + 1
             /\ bad' = bad \cup (IF j[2] \in names THEN {"overwritten"} ELSE {}) \cup (IF ~open /\ ~Waits THEN {"after close"} ELSE {})
             /\ UNCHANGED <<open, rate, loaded, queue, made>>
Deliver == /\ mail > 0 /\ mail' = mail - 1
           /\ bad' = bad \cup (IF ~open /\ ~Guarded THEN {"message after close"} ELSE {})
           /\ UNCHANGED <<open, rate, loaded, queue, running, names, made>>
(* all that wait are dropped; those that have begun come to their end first *)
Shut == /\ open /\ open' = FALSE /\ queue' = 0 /\ loaded' = 0
        /\ IF Waits THEN running' = {} /\ names' = names \cup {j[2] : j \in running} /\ mail' = mail + Cardinality(running)
                         /\ bad' = bad \cup (IF \E j \in running : j[2] \in names THEN {"overwritten"} ELSE {})
           ELSE UNCHANGED <<running, names, mail, bad>>
        /\ UNCHANGED <<rate, made>>
Reopen == ~open /\ open' = TRUE /\ UNCHANGED <<rate, loaded, queue, running, names, mail, made, bad>>
Next == Choose \/ (\E r \in Rates : NewRate(r)) \/ Click \/ Begin \/ (\E j \in running : Finish(j)) \/ Deliver \/ Shut \/ Reopen
NothingLost == bad = {}
AtHostRate == loaded # 0 => loaded = rate
===========================================================================
