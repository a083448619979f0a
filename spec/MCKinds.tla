------------------------------ MODULE MCKinds ------------------------------
(***************************************************************************)
(* Processes creating workspaces at the same time: the kind is drawn, then *)
(* the workspace is created.  A kind is made of a reading of the clock, a  *)
(* number of the process, and a random number: which of these is enough?   *)
(***************************************************************************)
EXTENDS Kinds, TLC
CONSTANTS Processes, Machines, MaxClock, MaxThings, UseRandom
VARIABLES clock, drawn, things, lines, randoms
vars == <<clock, drawn, things, lines, randoms>>
None == <<>>
\* processes of different machines may have the same number
Number(p) == p[2]
Procs == Machines \X Processes
Init == clock = 0 /\ drawn = [p \in Procs |-> None] /\ things = {} /\ lines = 0 /\ randoms = {}
\* random numbers do not repeat
Draw(p) == /\ drawn[p] = None
           /\ \E r \in 1..MaxThings : r \notin randoms
           /\ LET r == CHOOSE r \in 1..MaxThings : r \notin randoms
              IN /\ drawn' = [drawn EXCEPT ![p] = IF UseRandom THEN <<clock, Number(p), r>> ELSE <<clock, Number(p)>>]
                 /\ randoms' = randoms \cup {r}
           /\ UNCHANGED <<clock, things, lines>>
New(p) == /\ drawn[p] # None /\ lines < MaxThings
          /\ lines' = lines + 1
          /\ things' = things \cup {[line |-> lines', kind |-> drawn[p], ws |-> TRUE, n |-> 0]}
          /\ drawn' = [drawn EXCEPT ![p] = None]
          /\ UNCHANGED <<clock, randoms>>
\* saving and editing: a copy
Copy == /\ \E x \in things : \E n \in 1..2 : things' = things \cup {[x EXCEPT !.ws = ~x.ws, !.n = n]}
        /\ UNCHANGED <<clock, drawn, lines, randoms>>
Discard == /\ \E x \in things : things' = things \ {x}
           /\ UNCHANGED <<clock, drawn, lines, randoms>>
Tick == clock < MaxClock /\ clock' = clock + 1 /\ UNCHANGED <<drawn, things, lines, randoms>>
Next == Tick \/ Copy \/ Discard \/ \E p \in Procs : Draw(p) \/ New(p)
Spec == Init /\ [][Next]_vars
AlwaysTied == Tied(things)
=============================================================================
