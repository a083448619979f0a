------------------------------ MODULE ZipTrace ------------------------------
(***************************************************************************)
(* Judges archives read by a real process: what the reads gave, and which  *)
(* files it had open after them.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
R(q) == {q[i] : i \in DOMAIN q}
Cache == INSTANCE ZipCache WITH Good <- {}, Bad <- {}, Capacity <- 10, open <- 0, last <- 0, clock <- 0, content <- 0, act <- 0
\* a step: [op: "read" or "close" or "command", used: files read by it, got, want, open: files open afterwards (once for each time), most: most open during it]
\* at which step a file was used last (0: not since all were closed)
Fs(tt) == UNION {R(Data[tt].steps[m].used) : m \in DOMAIN Data[tt].steps}
Later(tt, n, la0) == LET s == Data[tt].steps[n]
                      IN IF s.op = "close" THEN [f \in DOMAIN la0 |-> 0] ELSE [f \in DOMAIN la0 |-> IF f \in R(s.used) THEN n ELSE la0[f]]
Clauses(tt, n, la0) ==
    LET s == Data[tt].steps[n] open == R(s.open)
    IN (IF s.most <= 10 /\ Len(s.open) <= 10 THEN {} ELSE {"cache:unbounded"})
       \cup (IF s.got = s.want THEN {} ELSE {"cache:content"})
       \cup (IF s.op = "close" /\ s.open # <<>> THEN {"cache:notclosed"} ELSE {})
       \cup (IF s.op = "close" THEN {} ELSE IF Cache!LongestFirst(open \cap DOMAIN la0, la0) THEN {} ELSE {"cache:order"})
VARIABLES t, l, used
Init == t \in Traces /\ l = 0 /\ used = [f \in Fs(t) |-> 0]
Verdict(tt, n, la) == LET v == Clauses(tt, n, la) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ used' = Later(t, l + 1, used)
        /\ Verdict(t, l + 1, used')
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l, used>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
