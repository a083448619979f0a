------------------------------ MODULE ZipCache ------------------------------
(***************************************************************************)
(* Archives kept open by a process.                                        *)
(*                                                                         *)
(* Reading an archive which is not open opens it; when there are Capacity  *)
(* of them open already, the one not used for longest is closed before.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Good, Bad,            \* files: archives, and those which can not be opened
          Capacity
Files == Good \cup Bad
VARIABLES open,                 \* file -> what is read through the handle open for it
          last,                 \* file -> when it was used (0: not since all were closed)
          clock,
          content,              \* what the last read gave: <<file, content>>
          act
vars == <<open, last, clock, content, act>>
Open == DOMAIN open
Least == CHOOSE f \in Open : \A g \in Open : last[f] <= last[g]
Without(f) == [g \in Open \ {f} |-> open[g]]
Room == IF Cardinality(Open) = Capacity THEN Without(Least) ELSE open
Contents(f) == f                \* each has something else in it
Read(f) ==
    /\ open' = IF f \in Open THEN open ELSE IF f \in Bad THEN Room
               ELSE [g \in DOMAIN Room \cup {f} |-> IF g = f THEN Contents(f) ELSE Room[g]]
    /\ IF f \in Good THEN last' = [last EXCEPT ![f] = clock + 1] /\ content' = <<f, open'[f]>>
                     ELSE UNCHANGED last /\ content' = <<f, "refused">>
    /\ clock' = clock + 1
    /\ act' = <<"read", f>>
CloseAll == /\ open' = [f \in {} |-> f]
            /\ last' = [f \in Files |-> 0]
            /\ clock' = clock + 1
            /\ act' = <<"close", 0>>
            /\ UNCHANGED content
Init == /\ open = [f \in {} |-> f] /\ last = [f \in Files |-> 0] /\ clock = 0 /\ content = <<>> /\ act = <<"start", 0>>
Next == (\E f \in Files : Read(f)) \/ CloseAll
Spec == Init /\ [][Next]_vars
\* ----------------------------------------------------------------
Bounded == Cardinality(Open) <= Capacity
\* what is closed was not used later than what is open
LongestFirst(o, l) == \A f \in o : \A g \in DOMAIN l : l[g] > 0 /\ g \notin o => l[g] <= l[f]
Order == LongestFirst(Open, last)
\* every read gives the content of the file asked for
Right == content # <<>> => content[2] = IF content[1] \in Good THEN Contents(content[1]) ELSE "refused"
OnlyUsed == \A f \in Open : last[f] > 0
=============================================================================
