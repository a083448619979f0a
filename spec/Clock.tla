------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* Instants, their notations, and what is selected by them.                *)
(*                                                                         *)
(* An instant is <<day, second of day, microsecond>> in UTC, day 1 being   *)
(* 0001-01-01.  A notation [y, mo, d, h, mi, s, us, off] is a local time   *)
(* of day with the offset (minutes) of the local time from UTC.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Lengths == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
MonthLength(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE Lengths[m]
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthLength(y, m - 1)
BeforeYear(y) == LET p == y - 1 IN 365 * p + (p \div 4) - (p \div 100) + (p \div 400)
Day(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d

DaySeconds == 86400
\* \div rounds down, % is not negative
Norm(day, sec, us) == <<day + (sec \div DaySeconds), sec % DaySeconds, us>>
Plus(i, days, secs) == Norm(i[1] + days, i[2] + secs, i[3])

\* is there such a moment at all
Proper(n) == /\ n.y \in 1..9999 /\ n.mo \in 1..12
             /\ n.d >= 1 /\ n.d <= MonthLength(n.y, n.mo)
             /\ n.h \in 0..23 /\ n.mi \in 0..59 /\ n.s \in 0..59 /\ n.us >= 0 /\ n.us < 1000000
             /\ n.off > -1440 /\ n.off < 1440
Denotes(n) == Norm(Day(n.y, n.mo, n.d), n.h * 3600 + n.mi * 60 + n.s - n.off * 60, n.us)

Before(i, j) == \/ i[1] < j[1]
                \/ i[1] = j[1] /\ i[2] < j[2]
                \/ i[1] = j[1] /\ i[2] = j[2] /\ i[3] < j[3]
AtOrBefore(i, j) == i = j \/ Before(i, j)

(***************************************************************************)
(* A time given by the user: a notation, where missing parts mean the      *)
(* beginning of the period in UTC, or a difference from now: amounts of    *)
(* weeks, days, hours, minutes and seconds, added up.                      *)
(***************************************************************************)
UnitDays(u) == CASE u = "w" -> 7 [] u = "d" -> 1 [] OTHER -> 0
UnitSeconds(u) == CASE u = "H" -> 3600 [] u = "M" -> 60 [] u = "S" -> 1 [] OTHER -> 0
RECURSIVE Sum(_, _)
Sum(F(_), xs) == IF xs = <<>> THEN 0 ELSE F(Head(xs)) + Sum(F, Tail(xs))
Moment(a, now) ==
    IF a.style = "delta"
    THEN LET Days(x) == x.amount * UnitDays(x.unit)
             Secs(x) == x.amount * UnitSeconds(x.unit)
         IN Plus(now, Sum(Days, a.deltas), Sum(Secs, a.deltas))
    ELSE Denotes(a.n)
\* is there such a moment: differences must not lead out of the calendar
LastDay == Day(9999, 12, 31)
Given(a, now) == IF a.style = "delta" THEN Moment(a, now)[1] >= 1 /\ Moment(a, now)[1] <= LastDay ELSE Proper(a.n)

\* beads: [id, at (instant)]; the newest ones not later than a moment
Candidates(beads, i) == {b \in beads : AtOrBefore(b.at, i)}
Picks(beads, i) == {b \in Candidates(beads, i) : \A c \in Candidates(beads, i) : AtOrBefore(c.at, b.at)}
=============================================================================
