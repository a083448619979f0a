----------------------------- MODULE ClockTrace -----------------------------
(***************************************************************************)
(* Judges the times recorded by saves and what was selected by times given *)
(* on the command line.                                                    *)
(***************************************************************************)
EXTENDS Clock, TLC, Json, IOUtils, Functions, SequencesExt
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
\* beads in the box: [id, n (notation)]
Beads(js) == {[id |-> js[i].id, at |-> Denotes(js[i].n)] : i \in DOMAIN js}
SaveClauses(d, s) ==
    IF ~s.ok THEN {"save:failed"}
    ELSE IF ~s.proper THEN {"save:notation"}
    ELSE (IF Denotes(s.n) = s.now THEN {} ELSE {"save:instant"})
         \* read back by the tool, from the archive and from the index
         \cup (IF \A i \in DOMAIN s.seen : s.seen[i] = Denotes(s.n) THEN {} ELSE {"save:readback"})
         \* is not in the future at the very same moment, and is the newest one
         \cup (IF s.accepted THEN {} ELSE {"save:future"})
         \cup (IF s.newest = s.id THEN {} ELSE {"save:newest"})
SelectClauses(d, s) ==
    IF ~Given(s.arg, s.now) THEN (IF s.got = "refused" THEN {} ELSE {"select:improper" \o (IF s.got = "crash" THEN "-crash" ELSE "")})
    ELSE LET p == Picks(Beads(s.beads), Moment(s.arg, s.now))
         IN IF p = {} THEN (IF s.got \in {"refused", "none"} THEN {} ELSE {"select:wrong"})
            ELSE IF \E b \in p : b.id = s.got THEN {} ELSE {"select:" \o (IF s.got = "refused" THEN "refused" ELSE "wrong")}
Clauses(tt, n) ==
    LET d == Data[tt] s == d.steps[n]
    IN IF s.op = "save" THEN SaveClauses(d, s) ELSE SelectClauses(d, s)
VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
