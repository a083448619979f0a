----------------------------- MODULE MCArchive -----------------------------
(***************************************************************************)
(* Two archives saved independently, any tampering with the second one.    *)
(* Verification is done step by step, as the tool does it.  Hashes are     *)
(* assumed to be different for different content, the content id is the    *)
(* hash of the manifest.                                                   *)
(***************************************************************************)
EXTENDS Archive, TLC
CONSTANTS DataNames, CodeNames, Contents, Metas, MaxTamper

Area(n) == IF n \in DataNames THEN "data" ELSE IF n \in CodeNames THEN "code" ELSE "other"
Names == DataNames \cup CodeNames \cup {"x/other"}
Future == 3         \* the metadata with a freeze time in the future
MetaHash(m) == 100 + m
FileOf(n, h) == [n |-> n, area |-> Area(n), h |-> h]
MetaFile(m) == [n |-> MetaEntry, area |-> "meta", h |-> MetaHash(m)]
Saved(content, m) ==
    LET fs == {FileOf(n, content[n]) : n \in DOMAIN content} \cup {MetaFile(m)}
    IN [zip |-> TRUE, named |-> TRUE, metaok |-> TRUE, meta |-> m, future |-> FALSE, manok |-> TRUE,
        man |-> {<<x.n, x.h>> : x \in fs}, files |-> fs, escape |-> FALSE]
Contents_ == UNION {[S -> Contents] : S \in SUBSET (DataNames \cup CodeNames)}

VARIABLES first, orig, a, n, phase, todo, bad
vars == <<first, orig, a, n, phase, todo, bad>>
Init == /\ \E c1, c2 \in Contents_ : \E m1, m2 \in Metas : first = Saved(c1, m1) /\ orig = Saved(c2, m2)
        /\ a = orig /\ n = 0 /\ phase = "tamper" /\ todo = {} /\ bad = FALSE
With(fs) == [a EXCEPT !.files = fs]
Have(x) == \E f \in a.files : f.n = x
File(x) == CHOOSE f \in a.files : f.n = x
Tampered ==
    \* content: change, unreadable, remove, rename (also to outside of data and code), add, exchange
    {With((a.files \ {f}) \cup {[f EXCEPT !.h = h]}) : f \in Content(a), h \in Contents \cup {0}}
    \cup {With(a.files \ {f}) : f \in a.files}
    \cup {With((a.files \ {f}) \cup {FileOf(x, f.h)}) : f \in {y \in a.files : y.area # "meta"}, x \in {y \in Names : ~Have(y)}}
    \cup {With(a.files \cup {FileOf(x, h)}) : x \in {y \in Names : ~Have(y)}, h \in Contents}
    \cup {With((a.files \ {f, g}) \cup {[f EXCEPT !.h = g.h], [g EXCEPT !.h = f.h]}) : f, g \in Content(a)}
    \* metadata
    \cup (IF Have(MetaEntry) THEN {[With((a.files \ {File(MetaEntry)}) \cup {MetaFile(m)}) EXCEPT !.meta = m, !.future = m = Future]
                                     : m \in Metas \cup {Future}} ELSE {})
    \* manifest: lost, an entry changed or removed, made again
    \cup {[a EXCEPT !.man = {}, !.manok = FALSE]}
    \cup {[a EXCEPT !.man = @ \ {m}] : m \in a.man}
    \cup {[a EXCEPT !.man = (@ \ {m}) \cup {<<m[1], h>>}] : m \in a.man, h \in Contents}
    \cup (IF a.manok THEN {[a EXCEPT !.man = {<<x.n, x.h>> : x \in Content(a) \cup {y \in a.files : y.area = "meta"}}]} ELSE {})
    \cup {[a EXCEPT !.zip = FALSE]}
    \cup {[a EXCEPT !.named = FALSE]}
Meta(b) == IF \E f \in b.files : f.n = MetaEntry THEN b ELSE [b EXCEPT !.meta = 0, !.metaok = FALSE]
Tamper == /\ phase = "tamper" /\ n < MaxTamper
          /\ a' \in {Meta(b) : b \in Tampered}
          /\ n' = n + 1
          /\ UNCHANGED <<first, orig, phase, todo, bad>>
\* verification: facts about metadata, then entries one by one, then the manifest, one by one
Begin == /\ phase = "tamper"
         /\ IF a.zip /\ a.named /\ a.metaok /\ ~a.future /\ a.manok /\ MetaEntry \in ManNames(a) /\ ~a.escape
            THEN phase' = "entries" /\ todo' = a.files /\ bad' = FALSE
            ELSE phase' = "done" /\ todo' = {} /\ bad' = TRUE
         /\ UNCHANGED <<first, orig, a, n>>
Least(S) == CHOOSE x \in S : TRUE
Entry == /\ phase = "entries"
         /\ IF todo = {} THEN phase' = "manifest" /\ todo' = a.man /\ UNCHANGED bad
            ELSE LET x == Least(todo)
                 IN IF x.area \in {"data", "code"} /\ x.n \notin ManNames(a) THEN phase' = "done" /\ bad' = TRUE /\ todo' = {}
                    ELSE todo' = todo \ {x} /\ UNCHANGED <<phase, bad>>
         /\ UNCHANGED <<first, orig, a, n>>
Manifest == /\ phase = "manifest"
            /\ IF todo = {} THEN phase' = "done" /\ UNCHANGED <<todo, bad>>
               ELSE LET m == Least(todo)
                    IN IF ~(\E x \in a.files : x.n = m[1] /\ x.h = m[2]) THEN phase' = "done" /\ bad' = TRUE /\ todo' = {}
                       ELSE todo' = todo \ {m} /\ UNCHANGED <<phase, bad>>
            /\ UNCHANGED <<first, orig, a, n>>
Next == Tamper \/ Begin \/ Entry \/ Manifest
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Cid(b) == b.man
VerifiedRight == phase = "done" => (bad <=> ~Valid(a))
SavedAreValid == Valid(orig) /\ Valid(first)
\* as long as the manifest is the original one, it is accepted only with the original content
TamperingFound == (phase = "done" /\ a.man = orig.man /\ ~bad) => Frozen(a) = Frozen(orig)
\* same content id if and only if the same content
SameId == (phase = "done" /\ ~bad /\ (\A m \in a.man : m[1] # "x/other")) => (Cid(a) = Cid(first) <=> Frozen(a) = Frozen(first))
OrigIds == Cid(orig) = Cid(first) <=> Frozen(orig) = Frozen(first)
\* intact content is never refused, whatever else is in the archive
IntactAccepted == (phase = "done" /\ a.zip /\ a.named /\ a.man = orig.man /\ Frozen(a) = Frozen(orig)) => ~bad
=============================================================================
