------------------------------- MODULE GenWeb -------------------------------
(***************************************************************************)
(* Webs of beads and sub-command sequences for running them with the tool. *)
(* Run with -simulate; prints <<"@@B", beads, sub-commands>>.              *)
(***************************************************************************)
EXTENDS Web, TLC
CONSTANTS NameSet, Versions, MaxOps
Order(x, v) == (v - 1) * Cardinality(NameSet) + x
AllRefs == NameSet \X Versions
RefNo(k) == CHOOSE q \in AllRefs : Order(q[1], q[2]) = k
Smaller(r, q) == Order(r[1], r[2]) < Order(q[1], q[2])
\* time of a bead: usually grows with its number, sometimes there are ties, or a clock is off
Times == [q \in AllRefs |-> CASE RandomElement(1..6) = 1 -> 3 * (Order(q[1], q[2]) \div 3)
                              [] RandomElement(1..8) = 1 -> RandomElement(1..Cardinality(AllRefs))
                              [] OTHER -> Order(q[1], q[2])]
VARIABLES k, beads, times, density, gone, ops
vars == <<k, beads, times, density, gone, ops>>
Init == k = 0 /\ beads = <<>> /\ times = <<>> /\ density = 0 /\ gone = {} /\ ops = <<>>
Inputs(q) == {r \in AllRefs : Smaller(r, q) /\ RandomElement(1..6) <= density}
OnePerName(S) == {r \in S : \A s \in S : s[1] = r[1] => s[2] <= r[2]}
Subset(p) == {x \in NameSet \cup {0} : RandomElement(1..4) <= p}
Begin == k = 0 /\ k' = 1 /\ times' = TLCEval(Times) /\ density' = RandomElement(1..4)
         /\ gone' = {x \in {RandomElement(NameSet)} : RandomElement(1..3) = 1} /\ UNCHANGED <<beads, ops>>
Add == /\ k \in 1..Cardinality(AllRefs)
       /\ k' = k + 1
       /\ LET q == RefNo(k)
              S == TLCEval(OnePerName(TLCEval(Inputs(q))))
          IN beads' = IF q[1] \in gone \/ RandomElement(1..4) = 1 THEN beads
                      ELSE Append(beads, <<q[1], q[2], times[q], {<<r[1], r[2], times[r]>> : r \in S}>>)
       /\ UNCHANGED <<times, density, gone, ops>>
Op == /\ k > Cardinality(AllRefs) /\ Len(ops) < MaxOps
      /\ \E o \in {<<"color", "color", "color", "heads", "heads", "sources", "sinks", "both", "load", "view">>[RandomElement(1..10)]} :
            ops' = Append(ops, <<o, IF o \in {"sources", "both"} THEN Subset(2) ELSE {}, IF o \in {"sinks", "both"} THEN Subset(2) ELSE {}>>)
      /\ UNCHANGED <<k, beads, times, density, gone>>
Next == Begin \/ Add \/ Op
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = MaxOps => PrintT(<<"@@B", beads, ops>>)
=============================================================================
