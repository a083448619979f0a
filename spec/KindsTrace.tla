----------------------------- MODULE KindsTrace -----------------------------
(***************************************************************************)
(* Judges kinds of workspaces and beads made by the real tool, by several  *)
(* processes at the same instant.                                          *)
(***************************************************************************)
EXTENDS Kinds, SequencesExt, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
R(q) == {q[i] : i \in DOMAIN q}
\* a step: things being there then: sequence of [line, kind]
VARIABLES t, l, seen
Init == t \in Traces /\ l = 0 /\ seen = {}
\* once said, a thing is not repeated
Verdict(tt, n) == LET new == R(Data[tt].steps[n].things) \ seen
                      v == (IF \E a \in new : \E b \in seen \cup new : a.kind = b.kind /\ a.line # b.line THEN {"kinds:repeated"} ELSE {})
                           \cup (IF \E a \in new : \E b \in seen \cup new : a.line = b.line /\ a.kind # b.kind THEN {"kinds:changed"} ELSE {})
                  IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ seen' = seen \cup R(Data[t].steps[l + 1].things)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l, seen>>
View == <<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
