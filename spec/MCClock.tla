------------------------------ MODULE MCClock ------------------------------
(***************************************************************************)
(* Saving and searching in time zones which change their offset.  Time is  *)
(* counted in whole units here, offsets too.  A zone is given by its       *)
(* offset before and after its changes; users can move to another zone.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxTime, MaxSaves, OffsetSet, MaxZones
VARIABLES now,     \* time elapsed
          zone,    \* [first, t1, second, t2, third]
          saves,   \* sequence of [loc, off] : what was recorded
          at,      \* ghost: when they were really made
          asked,   \* ghost: a moment asked for in the last step, with what was selected
          moved    \* number of moves
vars == <<now, zone, saves, at, asked, moved>>

Zones == {z \in [first : OffsetSet, t1 : 1..MaxTime, second : OffsetSet, t2 : 1..MaxTime, third : OffsetSet] :
            z.t1 < z.t2 /\ (z.first # z.second \/ z.t1 = 1) /\ (z.second # z.third \/ z.t2 = MaxTime)}
Offset(z, t) == IF t < z.t1 THEN z.first ELSE IF t < z.t2 THEN z.second ELSE z.third
Notation(z, t) == [loc |-> t + Offset(z, t), off |-> Offset(z, t)]
Denoted(n) == n.loc - n.off
Nothing == [moment |-> -1, ids |-> {}]

Init == now = 0 /\ zone \in Zones /\ saves = <<>> /\ at = <<>> /\ asked = Nothing /\ moved = 0
Wait == \E d \in {1, 2, 3} : now + d <= MaxTime /\ now' = now + d /\ asked' = Nothing /\ UNCHANGED <<zone, saves, at, moved>>
Save == /\ Len(saves) < MaxSaves
        /\ \A i \in DOMAIN at : at[i] < now
        /\ saves' = Append(saves, Notation(zone, now))
        /\ at' = Append(at, now)
        /\ asked' = Nothing
        /\ UNCHANGED <<now, zone, moved>>
Move == /\ moved < MaxZones
        /\ moved' = moved + 1
        /\ \E z \in Zones : z # zone /\ zone' = z
        /\ asked' = Nothing
        /\ UNCHANGED <<now, saves, at>>
\* select by a notation in any offset
Known(m) == {i \in DOMAIN saves : Denoted(saves[i]) <= m}
Newest(m) == {i \in Known(m) : \A j \in Known(m) : Denoted(saves[j]) <= Denoted(saves[i])}
Ask == /\ saves # <<>>
       /\ \E o \in OffsetSet, l \in 0..(MaxTime + 2) :
            LET m == l - o IN m >= 0 /\ m <= MaxTime /\ asked' = [moment |-> m, ids |-> Newest(m)]
       /\ UNCHANGED <<now, zone, saves, at, moved>>
Next == Wait \/ Save \/ Move \/ Ask
Spec == Init /\ [][Next]_vars

Truthful == \A i \in DOMAIN saves : Denoted(saves[i]) = at[i]
LaterIsNewer == \A i, j \in DOMAIN saves : i < j => Denoted(saves[i]) < Denoted(saves[j])
NotInFuture == \A i \in DOMAIN saves : Denoted(saves[i]) <= now
\* what is selected is the last one really made by then
RightOne == asked.moment >= 0 =>
               asked.ids = {i \in DOMAIN at : at[i] <= asked.moment /\ \A j \in DOMAIN at : at[j] <= asked.moment => at[j] <= at[i]}
\* the local time of day alone would not do
WithoutOffset == \A i, j \in DOMAIN saves : i < j => saves[i].loc < saves[j].loc
=============================================================================
