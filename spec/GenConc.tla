------------------------------- MODULE GenConc -------------------------------
(***************************************************************************)
(* Interleavings of processes using a box, to be replayed with the real    *)
(* ones (with -simulate).                                                  *)
(***************************************************************************)
EXTENDS BoxConc, TLC
VARIABLES there, log
GInit == /\ Init0
         /\ \E d \in {None, 1}, content \in SUBSET Old : InitIndex(d, content) /\ (d = None => content = {})
         /\ there \in {s \in SUBSET Procs : s \cap Saves # {} /\ Cardinality(s) \in 2..3}
         /\ log = <<IF path = None THEN 0 ELSE IF idx[1] = Old THEN 1 ELSE 2>>
GNext == /\ \/ \E p \in Saves \cap there : Save(p)
            \/ \E p \in (Syncs \cup Rebuilds) \cap there : Index(p)
            \/ RandomElement(1..20) = 1 /\ \E p \in Mortal \cap there : Kill(p)
         /\ log' = Append(log, act')
         /\ there' = there
GSpec == GInit /\ [][GNext]_<<vars, there, log>>
Kind(p) == IF p \notin there THEN "none" ELSE IF p \in Saves THEN "save" ELSE IF p \in Syncs THEN "index" ELSE "reindex"
\* positions of the steps of a process
At(p, names) == {n \in 2..Len(log) : log[n][1] = p /\ log[n][2] \in names}
Before(a, b) == a # {} /\ b # {} /\ \A x \in a, y \in b : x < y
First(p, names) == {n \in At(p, names) : \A m \in At(p, names) : n <= m}
Final(p) == {n \in 2..Len(log) : log[n][1] = p /\ \A m \in 2..Len(log) : log[m][1] = p => m <= n}
Indexers == (Syncs \cup Rebuilds) \cap there
\* a bead is saved while others are being indexed, after looking for archives
Meanwhile == \E p \in Saves \cap there, q \in Indexers :
                Before(At(q, {"scan"}), First(p, {"create"})) /\ Before(Final(p), Final(q)) /\ At(p, {"kill"}) = {} /\ At(p, {"commit"}) # {}
\* an archive is found before it is complete
Partial == \E p \in Saves \cap there, q \in Indexers :
                Before(At(p, {"create"}), At(q, {"scan"})) /\ Before(At(q, {"scan"}), At(p, {"finish"}))
\* one is looking for the index before, and is writing after another emptied it
Emptied == \E p \in (Saves \cup Syncs) \cap there, q \in Rebuilds \cap there :
                Before(First(p, {"open", "query", "check"}), First(q, {"commit"})) /\ Before(First(q, {"commit"}), First(p, {"commit"}))
Wanted == IF Meanwhile THEN TRUE ELSE RandomElement(1..24) <= (IF Partial THEN 6 ELSE IF Emptied THEN 3 ELSE 1)
Emit == (\A p \in there : pc[p] = "done") /\ Wanted =>
            PrintT(<<"@@B", <<Meanwhile, Partial, Emptied>>, <<[p \in 1..Cardinality(Procs) |-> Kind(p)], log[1], Tail(log), 0>>, 0>>)
=============================================================================
