---------------------------- MODULE ArchiveTrace ----------------------------
(***************************************************************************)
(* Judges what the tool thinks of archives.  A case is a set of archives   *)
(* in a box, a step is one of them (or the whole box).                     *)
(***************************************************************************)
EXTENDS Archive, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
A(j) == [zip |-> j.zip, named |-> j.named, metaok |-> j.metaok, meta |-> j.meta, future |-> j.future, manok |-> j.manok,
         man |-> {<<j.man[i].n, j.man[i].h>> : i \in DOMAIN j.man},
         files |-> {[n |-> j.files[i].n, area |-> j.files[i].area, h |-> j.files[i].h] : i \in DOMAIN j.files}, escape |-> j.escape]
\* s.made: the archive was made by the tool from a workspace
\* s.a: facts (s.a.cid: hash of the manifest, s.a.canon: manifest and metadata are in the usual notation),
\* s.tool: what the tool said
ArchiveClauses(s) ==
    LET a == A(s.a) v == Valid(a) x == s.tool
    IN (IF v /\ ~x.opened THEN {"valid:not-opened"} ELSE {})
       \cup (IF ~a.zip /\ x.opened THEN {"valid:opened-garbage"} ELSE {})
       \cup (IF x.opened /\ v # x.valid THEN {IF v THEN "valid:refused" ELSE "valid:accepted"} ELSE {})
       \cup (IF x.opened /\ (x.valid \/ v) /\ x.cid # s.a.cid THEN {"id:formula"} ELSE {})
       \cup (IF s.made /\ ~v THEN {"id:made"} ELSE {})
       \cup (IF x.opened /\ x.valid /\ v /\ (x.name # s.a.name \/ x.meta # a.meta) THEN {"id:facts"} ELSE {})
       \cup (IF x.edit = "none" THEN {}
             ELSE (IF (x.edit = "ok") # v THEN {IF v THEN "edit:refused" ELSE "edit:accepted"} ELSE {})
                  \cup (IF x.edit = "partial" THEN {"edit:partial"} ELSE {})
                  \cup (IF x.edit = "ok" /\ v /\ ~x.same THEN {"edit:content"} ELSE {}))
\* any two of the archives
PairClauses(d, i) ==
    UNION {LET s == d.steps[i] r == d.steps[k]
           IN IF s.op = "archive" /\ r.op = "archive" /\ s.a.canon /\ r.a.canon
                 /\ ((s.made /\ r.made) \/ (s.tool.valid /\ r.tool.valid /\ Valid(A(s.a)) /\ Valid(A(r.a))))
                 /\ (s.tool.cid = r.tool.cid) # (Frozen(A(s.a)) = Frozen(A(r.a)))
              THEN {IF s.tool.cid = r.tool.cid THEN "id:shared" ELSE "id:differs"} ELSE {} : k \in 1..(i - 1)}
\* the index of a box having all the archives
IndexClauses(d, s) ==
    LET good == {<<x.a.name, x.a.cid>> : x \in {d.steps[i] : i \in {k \in 1..Len(d.steps) : d.steps[k].op = "archive" /\ Valid(A(d.steps[k].a))}}}
        listed == {<<s.listed[i].name, s.listed[i].cid>> : i \in DOMAIN s.listed}
    IN (IF listed \subseteq good THEN {} ELSE {"index:admitted"}) \cup (IF good \subseteq listed THEN {} ELSE {"index:missing"})
       \cup (IF listed \subseteq {<<x.tool.name, x.tool.cid>> : x \in {d.steps[i] : i \in {k \in 1..Len(d.steps) : d.steps[k].op = "archive"}}}
             THEN {} ELSE {"id:index"})
Clauses(tt, n) ==
    LET d == Data[tt] s == d.steps[n]
    IN CASE s.op = "archive" -> ArchiveClauses(s) \cup PairClauses(d, n)
         [] s.op = "index" -> IndexClauses(d, s)
         \* saving to a fresh box has no reason to fail
         [] s.op = "unsaved" -> {"made:unsaved"}
VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
