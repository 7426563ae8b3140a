------------------------------- MODULE Cli -------------------------------
(* The command-line convolver and the files it works on.

   st maps each file name to its content: NoFile, or channels (each a sequence
   of <<position, value>> with the values that are not zero, in order of
   position), a rate and a length.  Values are integers in the file's own unit:
   the tool scales its result so that the loudest sample is one, so the unit of
   a file never matters.

   A run with three names reads signal and filter and replaces the output by
   the convolution, cut to the length of the signal, of each channel with the
   same channel of the filter, all scaled by one factor to a peak of one.  When
   a file is missing, damaged or empty, channels or rates differ, or the output
   cannot be written, the tool fails and leaves every file as it was.        *)
EXTENDS Taps
VARIABLE st
Names == 1..4                      \* ordinary files
Unwritable == 6
NoFile == [kind |-> "none"]
File(rate, len, x) == [kind |-> "audio", rate |-> rate, len |-> len, x |-> x]
Damaged == [kind |-> "damaged"]
Nothing == [f \in Names |-> NoFile]
Content(f) == IF f \in Names THEN st[f] ELSE NoFile
Usable(f) == Content(f).kind = "audio" /\ Content(f).len > 0 /\ Len(Content(f).x) > 0
CanRun(a, b, o) ==
    /\ Usable(a) /\ Usable(b) /\ o \in Names
    /\ Len(Content(a).x) = Len(Content(b).x)
    /\ Content(a).rate = Content(b).rate

Result(a, b) ==
    LET x == Content(a) h == Content(b)
    IN File(x.rate, x.len, [c \in 1..Len(x.x) |-> Channel(x.x[c], h.x[c], x.len)])
Put(f, c) == st' = [st EXCEPT ![f] = c]
Run(a, b, o) == IF CanRun(a, b, o) THEN st' = [st EXCEPT ![o] = Result(a, b)] ELSE UNCHANGED st
Misuse == UNCHANGED st
(* the disk is full: the run fails, the output is lost *)
RunFull(a, b, o) == IF CanRun(a, b, o) THEN st' = [st EXCEPT ![o] = NoFile] ELSE UNCHANGED st
==========================================================================
