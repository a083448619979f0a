------------------------------ MODULE GenClock ------------------------------
(***************************************************************************)
(* Zones, saves and questions to be made for real (with -simulate).        *)
(***************************************************************************)
EXTENDS MCClock, TLC
GOffsets == {-3, 0, 1, 2}
VARIABLE log
GInit == Init /\ log = <<<<"zone", zone.first, zone.t1, zone.second, zone.t2, zone.third>>>>
GNext == /\ Len(log) < 24
         /\ \/ Wait /\ log' = Append(log, <<"wait", now' - now, 0, 0, 0, 0>>)
            \/ Save /\ log' = Append(log, <<"save", 0, 0, 0, 0, 0>>)
            \/ Move /\ log' = Append(log, <<"zone", zone'.first, zone'.t1, zone'.second, zone'.t2, zone'.third>>)
            \/ /\ saves # <<>>
               /\ \E o \in {RandomElement(OffsetSet)}, m \in {RandomElement(0..MaxTime)} :
                    /\ log' = Append(log, <<"ask", m, o, 0, 0, 0>>)
                    /\ asked' = [moment |-> m, ids |-> Newest(m)]
                    /\ UNCHANGED <<now, zone, saves, at, moved>>
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == (Len(log) = 24 \/ now = MaxTime) /\ Len(saves) > 1 => PrintT(<<"@@B", Len(log), log, <<0>>>>)
=============================================================================
