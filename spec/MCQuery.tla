------------------------------ MODULE MCQuery ------------------------------
(***************************************************************************)
(* Searching as it is done, step by step: boxes one after the other, each  *)
(* either by looking into its files in some order, or in its index (a table*)
(* with at most one row for a name and content id); repeated copies are    *)
(* skipped, picking is done by going through what was found.               *)
(* All answers are acceptable for Query, for all small boxes and queries.  *)
(***************************************************************************)
EXTENDS Query, TLC
CONSTANTS BoxSet, NameSet, Beads, TimeSet, MaxCopies, MaxConds

VARIABLES copies, index, q, phase, todo, files, box, found, best, answer
vars == <<copies, index, q, phase, todo, files, box, found, best, answer>>

\* content: kind and time are determined by it
Kind(c) == IF c = 1 THEN "k1" ELSE "k2"
KindConds == {[c |-> "kind", v |-> "k1", t |-> 0]}
CidConds == {[c |-> "cid", v |-> c, t |-> 0] : c \in {1}}
NameConds == {[c |-> "name", v |-> n, t |-> 0] : n \in NameSet \cup {9}}
TimeConds == {[c |-> c, v |-> 0, t |-> t] : c \in {"at", "newer", "older", "atnewer", "atolder"}, t \in TimeSet}
CondSets == {S \in SUBSET (KindConds \cup CidConds \cup NameConds \cup TimeConds) : Cardinality(S) <= MaxConds}
\* a total order, so that sets of files are chosen only once
Copy(b, n, c, t, f) == [box |-> b, file |-> f, name |-> n, cid |-> c, kind |-> Kind(c), t |-> t, ins |-> {}]

NoQuery == [boxes |-> {}, conds |-> {}, uniq |-> FALSE, pick |-> "all", n |-> 0]
Init == /\ copies = {} /\ index = {} /\ q = NoQuery /\ phase = "make" /\ todo = BoxSet /\ files = {} /\ box = 0
        /\ found = <<>> /\ best = 0 /\ answer = "none"
TimeOf(c) == IF \E x \in copies : x.cid = c THEN {(CHOOSE x \in copies : x.cid = c).t} ELSE TimeSet
Number(b, n, c) == (IF b = "b1" THEN 0 ELSE 100) + 10 * n + c
AddFile == /\ phase = "make" /\ Cardinality(copies) < MaxCopies /\ todo = BoxSet
           /\ \E b \in BoxSet, n \in NameSet, c \in Beads : \E t \in TimeOf(c) :
                /\ \A x \in copies : Number(x.box, x.name, x.cid) <= Number(b, n, c)
                /\ copies' = copies \cup {Copy(b, n, c, t, Cardinality(copies) + 1)}
           /\ UNCHANGED <<index, q, phase, todo, files, box, found, best, answer>>
\* indexing a box: files in any order, the first or the last wins
IndexBox == /\ phase = "make" /\ todo # {}
            /\ \E b \in todo :
                /\ todo' = todo \ {b}
                /\ \E rows \in SUBSET {x \in copies : x.box = b} :
                     /\ {Ident(x) : x \in rows} = {Ident(x) : x \in {y \in copies : y.box = b}}
                     /\ \A x, y \in rows : Ident(x) = Ident(y) => x = y
                     /\ index' = index \cup {[b |-> b, rows |-> rows]}
            /\ copies # {}
            /\ UNCHANGED <<copies, q, phase, files, box, found, best, answer>>
Indexed(b) == \E i \in index : i.b = b
Rows(b) == (CHOOSE i \in index : i.b = b).rows
Ask == /\ phase = "make"
       /\ \E bs \in (SUBSET BoxSet) \ {{}}, cs \in CondSets, u \in BOOLEAN, p \in {"all", "first", "newest", "oldest", "newer", "older"} :
            \E n \in (IF p \in {"newer", "older"} THEN 0..2 ELSE {0}) :
              q' = [boxes |-> bs, conds |-> cs, uniq |-> u, pick |-> p, n |-> n]
       /\ phase' = "next" /\ todo' = q'.boxes
       /\ UNCHANGED <<copies, index, files, box, found, best, answer>>
\* one box
Matching(xs) == {x \in xs : \A c \in q.conds : Holds(c, x)}
OpenBox == /\ phase = "next" /\ todo # {} /\ ~(q.pick = "first" /\ found # <<>>)
           /\ \E b \in todo :
                /\ todo' = todo \ {b} /\ box' = b
                /\ files' = IF Indexed(b) THEN Matching(Rows(b)) ELSE {x \in copies : x.box = b}
           /\ phase' = "scan"
           /\ UNCHANGED <<copies, index, q, found, best, answer>>
Seen(x) == \E k \in 1..Len(found) : Ident(found[k]) = Ident(x)
Scan == /\ phase = "scan" /\ files # {}
        /\ \E x \in files :
             /\ files' = files \ {x}
             /\ found' = IF Matching({x}) = {} \/ Seen(x) THEN found ELSE Append(found, Entry(x))
        /\ UNCHANGED <<copies, index, q, phase, todo, box, best, answer>>
CloseBox == /\ phase = "scan" /\ files = {} /\ phase' = "next"
            /\ UNCHANGED <<copies, index, q, todo, files, box, found, best, answer>>
\* picking
Unique(seq) == SelectSeq([k \in 1..Len(seq) |-> [e |-> seq[k], k |-> k]],
                         LAMBDA r : ~q.uniq \/ \A j \in 1..(r.k - 1) : seq[j].cid # r.e.cid)
List == LET u == Unique(found) IN [k \in 1..Len(u) |-> u[k].e]
Collected == /\ phase = "next" /\ (todo = {} \/ (q.pick = "first" /\ found # <<>>))
             /\ found' = List /\ phase' = "pick" /\ best' = 0
             /\ UNCHANGED <<copies, index, q, todo, files, box, answer>>
Sorted(seq, up) == SortSeq(seq, LAMBDA a, b : IF up THEN a.t < b.t ELSE a.t > b.t)
Pick == /\ phase = "pick"
        /\ answer' = IF q.pick = "all" THEN [status |-> "ok", res |-> found]
                     ELSE LET up == q.pick \in {"oldest", "newer"}
                              s == IF q.pick = "first" THEN found ELSE Sorted(found, up)
                          IN IF q.n < Len(s) THEN [status |-> "ok", res |-> <<s[q.n + 1]>>] ELSE [status |-> "none", res |-> <<>>]
        /\ phase' = "done"
        /\ UNCHANGED <<copies, index, q, todo, files, box, found, best>>
Next == AddFile \/ IndexBox \/ Ask \/ OpenBox \/ Scan \/ CloseBox \/ Collected \/ Pick
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
AnswersRight == phase = "done" => QueryClauses(copies, q, answer.status, answer.res) = {}
\* the declaration is strict: anything else missing or more is refused
Strict == (phase = "done" /\ q.pick = "all" /\ answer.res # <<>>) =>
    /\ QueryClauses(copies, q, "ok", Tail(answer.res)) # {}
    /\ QueryClauses(copies, q, "ok", answer.res \o <<answer.res[1]>>) # {}
\* without ties there is only one answer
OnePick == (phase = "done" /\ q.pick \notin {"all", "first"} /\ ~q.uniq) =>
    LET es == Found(copies, q)
    IN (\A a, b \in es : a.t = b.t => a = b) => Cardinality(Picks(es, q)) <= 1
\* newest is the 0th from the newest, oldest is the 0th from the oldest, counting from the two ends meet
Ends == phase = "done" =>
    LET es == Found(copies, q)
        P(p, n) == Picks(es, [q EXCEPT !.pick = p, !.n = n])
    IN /\ P("newest", 0) = P("older", 0) /\ P("oldest", 0) = P("newer", 0)
       /\ ~q.uniq => \A n \in 0..(Cardinality(es) - 1) : P("newer", n) = P("older", Cardinality(es) - 1 - n)
       /\ P("newer", Count(es, q.uniq)) = {} /\ P("older", Count(es, q.uniq)) = {}
=============================================================================
