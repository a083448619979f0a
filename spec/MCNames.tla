------------------------------ MODULE MCNames ------------------------------
(***************************************************************************)
(* What saved beads are called can be told from the names of their files,  *)
(* for all names made of some pieces.                                      *)
(***************************************************************************)
EXTENDS Names, TLC
CONSTANTS MaxPieces
Date == <<"2", "0", "2", "0", "0", "1", "0", "2">>
Time == <<"T", "0", "3", "0", "4">>
Pieces == {<<"a">>, <<"_">>, <<".">>, <<"T">>, <<"1">>, <<"+">>, <<"_">> \o Date, Date, <<".", "z">>, Time}
Stamp == <<"_">> \o Date \o Time \o <<"+", "0", "0">>
Ext == <<".", "z", "i", "p">>
VARIABLE name, n
Init == name = <<>> /\ n = 0
Next == n < MaxPieces /\ \E p \in Pieces : name' = name \o p /\ n' = n + 1
Spec == Init /\ [][Next]_<<name, n>>
View == name
\* a bead saved with a name is found by that name
RoundTrip == WellFormed(name) => NameIn(FileOf(name, Stamp, Ext)) = name
\* at most one suffix is there
OneSuffix == Cardinality(Suffixes(Stem(name))) <= 1
\* copies named after the bead are the same bead, if the name does not look like one having a suffix
Letters == \E i \in DOMAIN name : name[i] # "."
Renamed == Letters /\ WellFormed(name) /\ Suffixes(name) = {} => NameIn(name \o Ext) = name
\* renaming within the conventions keeps the name
Kept == Letters => LET f == name \o Ext IN \A s \in {<<"_">> \o Date, <<"_">> \o Date \o Time, <<"_">> \o Date \o <<"t">>} :
            NameIn(NameIn(f) \o s \o Ext) = NameIn(f)
=============================================================================
