------------------------------ MODULE GenQuery ------------------------------
(***************************************************************************)
(* Boxes and queries for running them with the tool (with -simulate);      *)
(* prints <<"@@B", copies, queries>>.                                      *)
(***************************************************************************)
EXTENDS Query, TLC
CONSTANTS NameSet, BoxSet, MaxBeads, MaxQueries
VARIABLES k, stamp, copies, queries
vars == <<k, stamp, copies, queries>>
Cs == 1..MaxBeads
Init == k = 0 /\ stamp = <<>> /\ copies = <<>> /\ queries = <<>>
\* instants: few of them, so that there are equal ones
Begin == k = 0 /\ k' = RandomElement(3..(2 * MaxBeads)) /\ stamp' = TLCEval([c \in Cs |-> <<RandomElement(1..8), RandomElement(1..3)>>]) /\ UNCHANGED <<copies, queries>>
Store == /\ k > 1 /\ k' = k - 1
         /\ \E c \in {RandomElement(Cs)} :
                 copies' = Append(copies, <<RandomElement(BoxSet), RandomElement(NameSet), c, stamp[c][1], stamp[c][2]>>)
         /\ UNCHANGED <<stamp, queries>>
Cond == LET t == RandomElement(0..9)
        IN CASE RandomElement(1..10) = 1 -> <<"cid", RandomElement(Cs)>>
             [] RandomElement(1..4) = 1 -> <<"kind", RandomElement(1..4)>>
             [] RandomElement(1..3) = 1 -> <<"name", RandomElement(NameSet)>>
             [] OTHER -> <<RandomElement({"at", "newer", "older", "atnewer", "atolder"}), t>>
Query_ == /\ k = 1 /\ Len(queries) < MaxQueries
          /\ \E n \in {RandomElement(0..3)} :
               queries' = Append(queries, <<TLCEval({b \in BoxSet : RandomElement(1..3) > 1}),
                                           TLCEval([i \in 1..n |-> TLCEval(Cond)]), RandomElement(BOOLEAN),
                                           RandomElement({"all", "all", "first", "newest", "oldest", "newer", "older"}), RandomElement(0..3)>>)
          /\ UNCHANGED <<k, stamp, copies>>
Next == Begin \/ Store \/ Query_
Spec == Init /\ [][Next]_vars
Emit == Len(queries) = MaxQueries => PrintT(<<"@@B", copies, queries>>)
=============================================================================
