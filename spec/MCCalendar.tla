----------------------------- MODULE MCCalendar -----------------------------
(***************************************************************************)
(* The calendar arithmetic of Clock against counting days one by one, and  *)
(* notations with every kind of offset against each other.                 *)
(***************************************************************************)
EXTENDS Clock
CONSTANTS FirstYear, LastYear
VARIABLES date, n
vars == <<date, n>>
\* (the years are counted in parallel, Follows is the link between them)
Init == \E y \in FirstYear..LastYear : date = <<y, 1, 1>> /\ n = Day(y, 1, 1)
Tomorrow(y, m, d) == IF d < MonthLength(y, m) THEN <<y, m, d + 1>>
                     ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
Next == /\ ~(date[2] = 12 /\ date[3] = 31)
        /\ date' = Tomorrow(date[1], date[2], date[3])
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Counted == /\ Day(date[1], date[2], date[3]) = n
           /\ LET t == Tomorrow(date[1], date[2], date[3]) IN Day(t[1], t[2], t[3]) = n + 1
At(h, mi, s, off) == [y |-> date[1], mo |-> date[2], d |-> date[3], h |-> h, mi |-> mi, s |-> s, us |-> 5, off |-> off]
Offsets == {-1439, -720, -210, -60, -1, 0, 1, 60, 345, 765, 1439}
\* an offset moves the instant by exactly that much
Shifted == \A o \in Offsets : Plus(Denotes(At(0, 0, 0, o)), 0, o * 60) = Denotes(At(0, 0, 0, 0))
                              /\ Plus(Denotes(At(23, 59, 59, o)), 0, o * 60) = Denotes(At(23, 59, 59, 0))
\* midnight follows the last second of the day, in every offset
Follows == \A o \in Offsets :
             LET t == Tomorrow(date[1], date[2], date[3])
             IN Plus(Denotes(At(23, 59, 59, o)), 0, 1) = Denotes([At(0, 0, 0, o) EXCEPT !.y = t[1], !.mo = t[2], !.d = t[3]])
ASSUME Day(1, 1, 1) = 1 /\ Day(1970, 1, 1) = 719163 /\ Day(2000, 1, 1) = 730120
=============================================================================
