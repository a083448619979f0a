----------------------------- MODULE QueryTrace -----------------------------
(***************************************************************************)
(* Judges the answers of recorded queries.                                 *)
(***************************************************************************)
EXTENDS Query, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
E(j) == [box |-> j.box, name |-> j.name, cid |-> j.cid, kind |-> j.kind, t |-> j.t, ins |-> ToSet(j.ins)]
C(j) == [box |-> j.box, file |-> j.file, name |-> j.name, cid |-> j.cid, kind |-> j.kind, t |-> j.t, ins |-> ToSet(j.ins)]
Copies(d) == {C(d.copies[i]) : i \in DOMAIN d.copies}
Q(s) == [boxes |-> ToSet(s.boxes), conds |-> ToSet(s.conds), uniq |-> s.uniq, pick |-> s.pick, n |-> s.n]
Clauses(tt, n) ==
    LET s == Data[tt].steps[n]
        copies == Copies(Data[tt])
        res == [i \in 1..Len(s.res) |-> E(s.res[i])]
    IN QueryClauses(copies, Q(s), s.status, res)
       \cup UNION {ResolveClauses(copies, res[i], s.files[i]) : i \in 1..Len(s.files)}
VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
