------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Searching boxes: what is found, what is picked.                         *)
(*                                                                         *)
(* A copy is an archive file in a box: [box, file, name, cid, kind, t, ins].*)
(* A query: [boxes, conds, uniq, pick, n], conds is a set of               *)
(* [c, v, t]: c says which, v is a name, kind or content id, t an instant. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Holds(c, b) == CASE c.c = "name" -> b.name = c.v
                 [] c.c = "kind" -> b.kind = c.v
                 [] c.c = "cid" -> b.cid = c.v
                 [] c.c = "at" -> b.t = c.t
                 [] c.c = "newer" -> b.t > c.t
                 [] c.c = "older" -> b.t < c.t
                 [] c.c = "atnewer" -> b.t >= c.t
                 [] c.c = "atolder" -> b.t <= c.t
\* What is found: one entry for a bead in every box which has it, however many copies are there
Entry(x) == [box |-> x.box, name |-> x.name, cid |-> x.cid, kind |-> x.kind, t |-> x.t, ins |-> x.ins]
Found(copies, q) == {Entry(x) : x \in {y \in copies : y.box \in q.boxes /\ \A c \in q.conds : Holds(c, y)}}
Ident(e) == <<e.box, e.name, e.cid>>
Cids(es) == {e.cid : e \in es}
\* unique: any one of those with the same content
UniqueOf(es, res) == res \subseteq es /\ Cids(res) = Cids(es) /\ \A a, b \in res : a.cid = b.cid => a = b

\* picks: number of entries earlier than e / not later than e (entries with the same content count once, if unique)
Count(es, uniq) == IF uniq THEN Cardinality(Cids(es)) ELSE Cardinality(es)
Earlier(es, e) == {x \in es : x.t < e.t}
Later(es, e) == {x \in es : x.t > e.t}
Same(es, e) == {x \in es : x.t = e.t}
NthOldest(es, uniq, e, n) == Count(Earlier(es, e), uniq) <= n /\ n < Count(Earlier(es, e) \cup Same(es, e), uniq)
NthNewest(es, uniq, e, n) == Count(Later(es, e), uniq) <= n /\ n < Count(Later(es, e) \cup Same(es, e), uniq)
\* acceptable picks
Picks(es, q) == CASE q.pick = "first" -> es
                  [] q.pick = "newest" -> {e \in es : Later(es, e) = {}}
                  [] q.pick = "oldest" -> {e \in es : Earlier(es, e) = {}}
                  [] q.pick = "newer" -> {e \in es : NthOldest(es, q.uniq, e, q.n)}
                  [] q.pick = "older" -> {e \in es : NthNewest(es, q.uniq, e, q.n)}

\* clauses violated by answering res (a sequence of entries) with status "ok" / "none" to q
QueryClauses(copies, q, status, res) ==
    LET es == Found(copies, q)
        found == ToSet(res)
    IN IF status \notin {"ok", "none"} THEN {"query:" \o status}
       ELSE IF q.pick = "all"
       THEN (IF status # "ok" THEN {"query:all-failed"} ELSE {})
            \cup (IF ~q.uniq /\ ~({Ident(e) : e \in found} \subseteq {Ident(e) : e \in es}) THEN {"query:extra"} ELSE {})
            \cup (IF ~q.uniq /\ ~({Ident(e) : e \in es} \subseteq {Ident(e) : e \in found}) THEN {"query:lost"} ELSE {})
            \cup (IF Len(res) # Cardinality(found) THEN {"query:twice"} ELSE {})
            \cup (IF ~q.uniq /\ {Ident(e) : e \in es} = {Ident(e) : e \in found} /\ es # found THEN {"query:facts"} ELSE {})
            \cup (IF q.uniq /\ ~UniqueOf(es, found) THEN {"query:unique"} ELSE {})
       ELSE IF Picks(es, q) = {} THEN (IF status # "none" THEN {"query:invented"} ELSE {})
       ELSE IF status = "none" THEN {"query:notfound"}
       ELSE IF Len(res) # 1 \/ ~(found \subseteq es) THEN {"query:notmember"}
       ELSE IF ~(found \subseteq Picks(es, q)) THEN {"query:wrong-" \o q.pick} ELSE {}

\* a bead found leads to a file having it
ResolveClauses(copies, e, file) ==
    IF \E x \in copies : Entry(x) = e /\ x.file = file THEN {} ELSE {"query:resolve"}
=============================================================================
