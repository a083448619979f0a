------------------------------ MODULE GenNames ------------------------------
(***************************************************************************)
(* Names to be used for real: those made of the pieces of MCNames, with    *)
(* their files (with -simulate).                                           *)
(***************************************************************************)
EXTENDS MCNames
CONSTANT Length
Wild == {<<"*">>, <<"?">>, <<"[", "a", "]">>, <<"%">>, <<"a", "b">>, <<" ">>, <<"-">>, <<"A">>}
VARIABLE files
File(base) == LET r == TLCEval(RandomElement(1..6))
              IN IF r < 4 THEN FileOf(base, Stamp, Ext) ELSE IF r = 4 THEN base \o Ext ELSE IF r = 5 THEN base \o <<"_">> \o Date \o Ext
                 ELSE base \o <<"_">> \o Date \o <<"T">> \o Ext
GInit == Init /\ files = <<>>
GNext == IF n < 2 \/ (n < 6 /\ TLCEval(RandomElement(1..3)) < 3)
         THEN /\ \E p \in {RandomElement(Pieces \cup Wild)} : name' = name \o p
              /\ n' = n + 1
              /\ files' = files
         ELSE /\ files' = Append(files, File(name))
              \* go on with something similar, or start again
              /\ LET r == TLCEval(RandomElement(1..4)) IN name' = IF r = 1 THEN <<>> ELSE IF r = 2 THEN Tail(name) ELSE IF r = 3 THEN Sub(name, 1, Len(name) - 1) ELSE name
              /\ n' = IF name' = <<>> THEN 0 ELSE 4
GSpec == GInit /\ [][GNext]_<<name, n, files>>
Emit == Len(files) = Length => PrintT(<<"@@B", Length, files, 0>>)
=============================================================================
