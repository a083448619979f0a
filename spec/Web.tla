-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* The web of beads: its nodes and links, freshness, filters, heads, and   *)
(* what a drawing of it has to show.                                       *)
(*                                                                         *)
(* A node is  [name, cid, kind, t, fresh, ins], where ins is a set of      *)
(* inputs [nick, cid, kind, t].  An input refers to the node having its    *)
(* nick as name, and the same content id: links are implied.               *)
(* A graph is a set of nodes.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

PHANTOM == "PHANTOM"
SUPERSEDED == "SUPERSEDED"
UP_TO_DATE == "UP_TO_DATE"
OUT_OF_DATE == "OUT_OF_DATE"

Ref(n) == <<n.name, n.cid>>
To(i) == <<i.nick, i.cid>>                      \* reference made by an input
Refs(g) == {Ref(n) : n \in g}
Names(g) == {n.name : n \in g}
Named(g, x) == {n \in g : n.name = x}
Plain(n) == [n EXCEPT !.fresh = ""]
NodeAt(g, r) == CHOOSE n \in g : Ref(n) = r
\* one link per recorded input
Links(g) == UNION {{[src |-> To(i), dest |-> Ref(n), label |-> i.nick] : i \in n.ins} : n \in g}
WellFormed(g) == /\ \A m, n \in g : Ref(m) = Ref(n) => m = n
                 /\ \A n \in g : \A i \in n.ins : To(i) \in Refs(g)

-----------------------------------------------------------------------------
\* The web of stored beads
AllInputs(g) == UNION {n.ins : n \in g}
Missing(stored) == {To(i) : i \in AllInputs(stored)} \ Refs(stored)
PhantomOf(i) == [name |-> i.nick, cid |-> i.cid, kind |-> i.kind, t |-> i.t, fresh |-> PHANTOM, ins |-> {}]
\* clauses violated by g as the web of the stored beads
BuildClauses(stored, g) ==
    LET real == {n \in g : Ref(n) \in Refs(stored)}
        rest == g \ real
    IN (IF Refs(real) = Refs(stored) /\ Cardinality(real) = Cardinality(Refs(stored)) THEN {} ELSE {"build:stored"})
       \cup (IF {[Plain(n) EXCEPT !.ins = {}] : n \in real} = {[Plain(n) EXCEPT !.ins = {}] : n \in stored} THEN {} ELSE {"build:facts"})
       \cup (IF {<<Ref(n), n.fresh>> : n \in real} = {<<Ref(n), n.fresh>> : n \in stored} THEN {} ELSE {"build:freshness"})
       \cup (IF Links(real) = Links(stored) THEN {} ELSE {"build:links"})
       \cup (IF {<<Ref(n), n.ins>> : n \in real} = {<<Ref(n), n.ins>> : n \in stored} THEN {} ELSE {"build:inputs"})
       \cup (IF Refs(rest) = Missing(stored) /\ Cardinality(rest) = Cardinality(Missing(stored)) THEN {} ELSE {"build:missing"})
       \cup (IF \A n \in rest : \E i \in AllInputs(stored) : n = PhantomOf(i) THEN {} ELSE {"build:phantom"})
Build(stored) == stored \cup {PhantomOf(CHOOSE i \in AllInputs(stored) : To(i) = r) : r \in Missing(stored)}

-----------------------------------------------------------------------------
\* Freshness
IsPhantom(n) == n.fresh = PHANTOM
Newest(ns) == {n \in ns : \A m \in ns : m.t <= n.t}
\* latest versions: more than one only when they have the same time
Latest(g, x) == Newest(Named(g, x))
Fresh(g, r) == NodeAt(g, r).fresh
InputsFresh(g, n) == \A i \in n.ins : Fresh(g, To(i)) = UP_TO_DATE

ColourClauses(pre, post) ==
    (IF {Plain(n) : n \in pre} = {Plain(n) : n \in post} /\ Cardinality(pre) = Cardinality(post) THEN {} ELSE {"color:graph"})
    \cup (IF \A n \in pre : IsPhantom(n) <=> Fresh(post, Ref(n)) = PHANTOM THEN {} ELSE {"color:missing"})
    \cup (IF \A x \in Names(post) :
              \E l \in Latest(post, x) :
                  /\ \A n \in Named(post, x) \ {l} : n.fresh \in {SUPERSEDED, PHANTOM}
                  /\ IsPhantom(l) \/ l.fresh # SUPERSEDED
          THEN {} ELSE {"color:superseded"})
    \cup (IF \A n \in post : n.fresh = UP_TO_DATE => InputsFresh(post, n) THEN {} ELSE {"color:uptodate"})
    \cup (IF \A n \in post : n.fresh = OUT_OF_DATE => ~InputsFresh(post, n) THEN {} ELSE {"color:outofdate"})
\* every name's latest bead is up to date
AllFresh(g) == \A x \in Names(g) : \E l \in Latest(g, x) : l.fresh = UP_TO_DATE

-----------------------------------------------------------------------------
\* Filters: work on names
NameLinks(g) == {<<l.src[1], l.dest[1]>> : l \in Links(g)}
RECURSIVE Closure(_, _)
Closure(ns, pairs) == LET more == {p[2] : p \in {q \in pairs : q[1] \in ns}} \ ns
                      IN IF more = {} THEN ns ELSE Closure(ns \cup more, pairs)
Reversed(pairs) == {<<p[2], p[1]>> : p \in pairs}
\* the nodes of linked names among ns, without references to what was dropped
Among(g, ns) ==
    LET linked == {p \in NameLinks(g) : p[1] \in ns /\ p[2] \in ns}
        kept == {n \in g : \E p \in linked : n.name \in {p[1], p[2]}}
    IN {[n EXCEPT !.ins = {i \in @ : To(i) \in Refs(kept)}] : n \in kept}
Sources(g, ns) == Among(g, Closure(ns \cap Names(g), NameLinks(g)))
Sinks(g, ns) == Among(g, Closure(ns \cap Names(g), Reversed(NameLinks(g))))
Filter(g, sources, sinks) ==
    LET h == IF sources = {} THEN g ELSE Sources(g, sources)
    IN IF sinks = {} THEN h ELSE Sinks(h, sinks)

\* Heads: the latest existing bead of every name (a missing one, if there is no other), and their inputs
HeadsOf(g, x) == LET real == {n \in Named(g, x) : ~IsPhantom(n)}
                 IN IF real # {} THEN Newest(real) ELSE Newest(Named(g, x))
\* all the possibilities: there are more only when freeze times are equal
RECURSIVE HeadChoices(_, _)
HeadChoices(g, names) ==
    IF names = {} THEN {{}}
    ELSE LET x == CHOOSE y \in names : TRUE
         IN UNION {{c \cup {h} : h \in HeadsOf(g, x)} : c \in HeadChoices(g, names \ {x})}
HeadsWith(g, hs) ==
    LET inputs == {NodeAt(g, To(i)) : i \in AllInputs(hs)} \ hs
    IN hs \cup {[n EXCEPT !.ins = {}] : n \in inputs}
Heads(g) == {HeadsWith(g, hs) : hs \in HeadChoices(g, Names(g))}

-----------------------------------------------------------------------------
\* Drawing: d = [groups, links], groups is a sequence of [name, rows] with rows a sequence of [cid, t, color],
\* links is a sequence of [src, dest, label, color]
ColourOf(fresh) == CASE fresh = PHANTOM -> "red" [] fresh = SUPERSEDED -> "grey"
                     [] fresh = UP_TO_DATE -> "green" [] fresh = OUT_OF_DATE -> "orange"
LinkColour(g, l) == IF Fresh(g, l.dest) \in {UP_TO_DATE, OUT_OF_DATE} THEN ColourOf(Fresh(g, l.src)) ELSE "grey90"
DrawClauses(g, d) ==
    LET groups == ToSet(d.groups)
        links == ToSet(d.links)
    IN (IF {x.name : x \in groups} = Names(g) /\ Len(d.groups) = Cardinality(Names(g)) THEN {} ELSE {"draw:groups"})
       \cup (IF \A x \in groups :
                 /\ {<<x.name, r.cid>> : r \in ToSet(x.rows)} = Refs(Named(g, x.name))
                 /\ Len(x.rows) = Cardinality(Named(g, x.name))
             THEN {} ELSE {"draw:beads"})
       \cup (IF \A x \in groups : \A i \in 1..(Len(x.rows) - 1) : x.rows[i].t >= x.rows[i + 1].t THEN {} ELSE {"draw:order"})
       \cup (IF \A x \in groups : \A r \in ToSet(x.rows) :
                   \A n \in Named(g, x.name) : n.cid = r.cid => n.t = r.t
             THEN {} ELSE {"draw:times"})
       \cup (IF \A x \in groups : \A r \in ToSet(x.rows) :
                   \A n \in Named(g, x.name) : n.cid = r.cid => ColourOf(n.fresh) = r.color
             THEN {} ELSE {"draw:colors"})
       \cup (IF {[src |-> l.src, dest |-> l.dest] : l \in links} = {[src |-> l.src, dest |-> l.dest] : l \in Links(g)}
                /\ Len(d.links) = Cardinality(Links(g)) THEN {} ELSE {"draw:links"})
       \cup (IF {[src |-> l.src, dest |-> l.dest, label |-> l.label] : l \in links} = Links(g) THEN {} ELSE {"draw:labels"})
       \cup (IF \A l \in links : l.src \in Refs(g) /\ l.dest \in Refs(g) => l.color = LinkColour(g, l) THEN {} ELSE {"draw:linkcolors"})
=============================================================================
