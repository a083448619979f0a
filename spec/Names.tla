------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names of beads and of the files they are stored in.                     *)
(*                                                                         *)
(* Names are sequences of characters: strings of length one.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitsInDate == 8
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)

\* usable as file names, and by other programs; lengths are limited elsewhere
Has2(s, c) == \E i \in 1..(Len(s) - 1) : s[i] = c /\ s[i + 1] = c
WellFormed(s) == /\ s \notin {<<>>, <<".">>, <<".", ".">>}
                 /\ \A i \in DOMAIN s : s[i] \notin {"/", "bad"}         \* bad: not a character (in UTF-8)
                 /\ ~Has2(s, "_")

\* without the extension: what follows the last dot - except for dots at the beginning
Dots(s) == {i \in DOMAIN s : s[i] = "." /\ \E j \in 1..(i - 1) : s[j] # "."}
Stem(s) == IF Dots(s) = {} THEN s ELSE LET d == CHOOSE i \in Dots(s) : \A j \in Dots(s) : j <= i IN Sub(s, 1, d - 1)

\* a time suffix: _ and 8 digits and, perhaps, T and a time with a zone
IsSuffix(s) == /\ Len(s) > DigitsInDate
               /\ s[1] = "_"
               /\ \A i \in 2..(DigitsInDate + 1) : s[i] \in Digits
               /\ \/ Len(s) = DigitsInDate + 1
                  \/ /\ s[DigitsInDate + 2] \in {"T", "t"}
                     /\ \A i \in (DigitsInDate + 3)..Len(s) : s[i] \in Digits \cup {"+", "-"}
Suffixes(s) == {i \in DOMAIN s : IsSuffix(Sub(s, i, Len(s)))}
\* the name of the bead in a file
NameIn(file) == LET s == Stem(file)
                IN IF Suffixes(s) = {} THEN s ELSE Sub(s, 1, (CHOOSE i \in Suffixes(s) : \A j \in Suffixes(s) : i <= j) - 1)
IsBeadFile(file) == WellFormed(NameIn(file))
\* where a bead is saved: stamp is a time with a zone
FileOf(name, stamp, ext) == name \o stamp \o ext
=============================================================================
