------------------------------- MODULE MCWeb -------------------------------
(***************************************************************************)
(* All small webs: the sub-commands as step-by-step algorithms (filters    *)
(* explore names one by one in any order, colouring visits the heads in    *)
(* any topological order) give what Web.tla declares, and the declared     *)
(* results have the expected laws.                                         *)
(***************************************************************************)
EXTENDS Web, TLC
CONSTANTS NameSet, Versions, MaxOps, Ties

\* possible beads are totally ordered, inputs are always smaller
Order(x, v) == (v - 1) * Cardinality(NameSet) + x
AllRefs == NameSet \X Versions
Smaller(r, q) == Order(r[1], r[2]) < Order(q[1], q[2])
Time(v) == IF Ties THEN v \div 2 ELSE v
\* at most one version of every name is an input
InputSets(q) == {S \in SUBSET {r \in AllRefs : Smaller(r, q)} : \A a, b \in S : a[1] = b[1] => a = b}
InputsFrom(S) == {[nick |-> r[1], cid |-> r[2], kind |-> r[1], t |-> Time(r[2])] : r \in S}
Options(q) == {{}} \cup {{[name |-> q[1], cid |-> q[2], kind |-> q[1], t |-> Time(q[2]), fresh |-> SUPERSEDED, ins |-> InputsFrom(S)]} : S \in InputSets(q)}

VARIABLES g, phase, work, pre, arg, ops
vars == <<g, phase, work, pre, arg, ops>>
\* graphs are made bead by bead
Start == g = {} /\ phase = "make" /\ work = Cardinality(AllRefs) /\ pre = {} /\ arg = {} /\ ops = 0
RefNo(k) == CHOOSE q \in AllRefs : Order(q[1], q[2]) = k
Make == /\ phase = "make" /\ work > 0
        /\ \E o \in Options(RefNo(Cardinality(AllRefs) + 1 - work)) : g' = g \cup o
        /\ work' = work - 1
        /\ UNCHANGED <<phase, pre, arg, ops>>
Made == /\ phase = "make" /\ work = 0
        /\ g' = Build(g)
        /\ phase' = "ready"
        /\ UNCHANGED <<work, pre, arg, ops>>

\* colouring, bead by bead
HeadsNow(f) == {f[x] : x \in Names(g)}
BeginColour ==
    /\ phase = "ready" /\ ops < MaxOps
    /\ \E f \in [Names(g) -> g] :
         /\ \A x \in Names(g) : f[x] \in Latest(g, x)
         /\ g' = {IF IsPhantom(n) THEN n ELSE [n EXCEPT !.fresh = IF f[n.name] = n THEN UP_TO_DATE ELSE SUPERSEDED] : n \in g}
         /\ work' = {Ref(f[x]) : x \in {y \in Names(g) : ~IsPhantom(f[y])}}
    /\ pre' = g /\ phase' = "color" /\ ops' = ops + 1
    /\ UNCHANGED arg
Evaluate ==
    /\ phase = "color" /\ work # {}
    /\ \E r \in work :
         LET n == NodeAt(g, r)
         IN /\ \A i \in n.ins : To(i) \notin work        \* topological order
            /\ g' = IF InputsFresh(g, n) THEN g ELSE (g \ {n}) \cup {[n EXCEPT !.fresh = OUT_OF_DATE]}
            /\ work' = work \ {r}
    /\ UNCHANGED <<phase, pre, arg, ops>>
EndColour == phase = "color" /\ work = {} /\ phase' = "ready" /\ UNCHANGED <<g, work, pre, arg, ops>>

\* filters, name by name
BeginFilter(kind) ==
    /\ phase = "ready" /\ ops < MaxOps
    /\ \E ns \in SUBSET NameSet \ {{}} :
         /\ arg' = ns
         /\ work' = [reached |-> {}, todo |-> ns \cap Names(g)]
    /\ pre' = g /\ phase' = kind /\ ops' = ops + 1
    /\ UNCHANGED g
Pairs == IF phase = "sources" THEN NameLinks(g) ELSE Reversed(NameLinks(g))
Explore ==
    /\ phase \in {"sources", "sinks"} /\ work.todo # {}
    /\ \E x \in work.todo :
         LET reached == work.reached \cup {x}
         IN work' = [reached |-> reached, todo |-> (work.todo \ {x}) \cup ({p[2] : p \in {q \in Pairs : q[1] = x}} \ reached)]
    /\ UNCHANGED <<g, phase, pre, arg, ops>>
EndFilter ==
    /\ phase \in {"sources", "sinks"} /\ work.todo = {}
    /\ g' = Among(g, work.reached)
    /\ arg' = [op |-> phase, ns |-> arg]
    /\ phase' = "filtered" /\ work' = {}
    /\ UNCHANGED <<pre, ops>>
Filtered == phase = "filtered" /\ phase' = "ready" /\ arg' = {} /\ UNCHANGED <<g, work, pre, ops>>

TakeHeads ==
    /\ phase = "ready" /\ ops < MaxOps
    /\ g' \in Heads(g)
    /\ pre' = g /\ phase' = "headed" /\ ops' = ops + 1 /\ UNCHANGED <<work, arg>>
Headed == phase = "headed" /\ phase' = "ready" /\ UNCHANGED <<g, work, pre, arg, ops>>

\* saved to a file and loaded back: built again from its nodes
Reload == phase = "ready" /\ ops < MaxOps /\ g' = Build(g) /\ pre' = g /\ phase' = "loaded" /\ ops' = ops + 1 /\ UNCHANGED <<work, arg>>
Loaded == phase = "loaded" /\ phase' = "ready" /\ UNCHANGED <<g, work, pre, arg, ops>>

Next == Make \/ Made \/ BeginColour \/ Evaluate \/ EndColour \/ BeginFilter("sources") \/ BeginFilter("sinks") \/ Explore
        \/ EndFilter \/ Filtered \/ TakeHeads \/ Headed \/ Reload \/ Loaded
Spec == Start /\ [][Next]_vars
-----------------------------------------------------------------------------
AlwaysSound == phase # "make" => WellFormed(g)
ColoursAsDeclared == phase = "color" /\ work = {} => ColourClauses(pre, g) = {}
\* (the declaration leaves no freedom, other than which one of two simultaneous versions is the latest)
ColoursUnique == (phase = "color" /\ work = {} /\ ~Ties) =>
    \A r \in Refs(g) : \A c \in {SUPERSEDED, UP_TO_DATE, OUT_OF_DATE} :
        (Fresh(g, r) # PHANTOM /\ c # Fresh(g, r))
            => ColourClauses(pre, {IF Ref(n) = r THEN [n EXCEPT !.fresh = c] ELSE n : n \in g}) # {}
\* up to date is transitive: no path leads to it from something newer or missing
RECURSIVE Deep(_, _)
Deep(h, n) == {n} \cup UNION {Deep(h, NodeAt(h, To(i))) : i \in n.ins}
TransitivelyFresh == phase = "color" /\ work = {} =>
    \A n \in g : n.fresh = UP_TO_DATE <=> (~IsPhantom(n) /\ \A m \in Deep(g, n) : ~IsPhantom(m) /\ m.fresh # SUPERSEDED)
FiltersAsDeclared == phase = "filtered" => g = (IF arg.op = "sources" THEN Sources(pre, arg.ns) ELSE Sinks(pre, arg.ns))
\* nothing is invented, all versions and all links among what is kept survive
NothingInvented == phase \in {"filtered", "headed"} =>
    /\ Refs(g) \subseteq Refs(pre) /\ Links(g) \subseteq Links(pre)
    /\ phase = "filtered" => /\ \A n \in pre : n.name \in Names(g) => Ref(n) \in Refs(g)
                             /\ \A l \in Links(pre) : l.src[1] \in Names(g) /\ l.dest[1] \in Names(g) => l \in Links(g)
FilterAgain == phase = "filtered" =>
    g = (IF arg.op = "sources" THEN Sources(g, arg.ns) ELSE Sinks(g, arg.ns))
UnknownSelectNothing == phase = "filtered" /\ arg.ns \cap Names(pre) = {} => g = {}
HeadsKept == phase = "headed" => /\ Names(g) = Names(pre)
                                 /\ \A x \in Names(g) : \E h \in HeadsOf(pre, x) : \E n \in g : n = h
                                 /\ ~Ties => Heads(g) = {g}
ReloadKeeps == phase = "loaded" => g = pre
Invariants == AlwaysSound /\ ColoursAsDeclared /\ ColoursUnique /\ TransitivelyFresh /\ FiltersAsDeclared /\ NothingInvented
              /\ FilterAgain /\ UnknownSelectNothing /\ HeadsKept /\ ReloadKeeps
=============================================================================
