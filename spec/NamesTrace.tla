----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* Judges what beads in files of any name are called by the real tool, and *)
(* what is found by which name.                                            *)
(***************************************************************************)
EXTENDS Names, SequencesExt, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
R(q) == {q[i] : i \in DOMAIN q}
\* files: [f: characters, cid]; a step: [op: "list", "find" or "resolve", ask: characters, got: [name: characters, cid, f]]
Beads(tt) == {[name |-> NameIn(x.f), cid |-> x.cid] : x \in {y \in R(Data[tt].files) : IsBeadFile(y.f)}}
Clauses(tt, n, beads) ==
    LET s == Data[tt].steps[n] got == {[name |-> g.name, cid |-> g.cid] : g \in R(s.got)}
        want == IF s.op = "list" THEN beads ELSE {b \in beads : b.name = s.ask}
    IN (IF s.failed THEN {"names:crash"} ELSE {})
       \cup (IF want \subseteq got THEN {} ELSE {"names:missing"})
       \cup (IF got \subseteq want THEN {} ELSE {"names:wrong"})
       \cup (IF \A g \in R(s.got) : g.f = <<>> \/ \E x \in R(Data[tt].files) : x.f = g.f /\ x.cid = g.cid /\ NameIn(x.f) = g.name THEN {} ELSE {"names:file"})
VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n, Beads(tt)) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
