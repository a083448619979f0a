----------------------------- MODULE ConcTrace -----------------------------
(***************************************************************************)
(* Judges what is left of a box after processes used it at the same time:  *)
(* a step is one round of such processes.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
R(q) == {q[i] : i \in DOMAIN q}
\* s.before, s.after: archives [f, dg, ok, name, cid]; s.listed, s.listedbefore: [name, cid, f];
\* s.saves: [f, ok] of saves which succeeded; s.indexed: a command for indexing the box succeeded
Clauses(tt, n) ==
    LET s == Data[tt].steps[n]
        before == R(s.before) after == R(s.after) listed == R(s.listed)
        saved == {a \in after : a.f \in R(s.saved)}
        lists(a) == \E l \in listed : l.name = a.name /\ l.cid = a.cid
        old == {<<l.name, l.cid>> : l \in R(s.listedbefore)}
        good(l) == \E a \in after : a.f = l.f /\ a.ok /\ a.name = l.name /\ a.cid = l.cid
    IN (IF before \subseteq after THEN {} ELSE {"conc:altered"})
       \cup (IF \A f \in R(s.saved) : \E a \in after : a.f = f /\ a.ok THEN {} ELSE {"conc:disappeared"})
       \cup (IF \A a \in saved : a.ok => lists(a) THEN {} ELSE {"conc:lost"})
       \cup (IF \A a \in before : a.ok /\ (s.indexed \/ <<a.name, a.cid>> \in old) => lists(a) THEN {} ELSE {"conc:forgotten"})
       \cup (IF \A l \in listed : good(l) \/ (~s.indexed /\ <<l.name, l.cid>> \in old) THEN {} ELSE {"conc:dangling"})
       \cup (IF s.stuck THEN {"conc:stuck"} ELSE {})
       \cup (IF \A x \in R(s.crashed) : FALSE THEN {} ELSE {"conc:crashed"})
VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
