------------------------------- MODULE MCBead -------------------------------
(***************************************************************************)
(* Exhaustive checking of BeadSystem for small constants, and generation   *)
(* of behaviours (GenBead) to be replayed in the real tool.                *)
(***************************************************************************)
EXTENDS BeadSystem

CONSTANTS Wss, Nicks_, MaxSaves, MaxSteps, Ops, InitReg, MaxKind
StepLimit == MaxSteps = 0 \/ TLCGet("level") <= MaxSteps

VARIABLES s,      \* state of the system
          now,    \* advances with every save
          kmax,   \* kinds used up to now
          made,   \* all archives ever saved
          dirty,  \* boxes that the environment changed since their index was brought up to date:
                  \* <<what is needed to bring it up to date, box>>
          hist    \* last step: [cmd, st, pre]  (hidden by VIEW)
vars == <<s, now, kmax, made, dirty, hist>>
View == <<s, now, kmax, made, dirty>>

Locs == {"b1", "b2", "home"}
RegA == <<[name |-> "A", loc |-> "b1"]>>
RegAB == <<[name |-> "A", loc |-> "b1"], [name |-> "B", loc |-> "b2"]>>
RegNone == <<>>
BoxName(l) == CASE l = "b1" -> "A" [] l = "b2" -> "B" [] OTHER -> "home"

NoWs(w) == [name |-> w, nameok |-> TRUE, path |-> <<"ws", w>>, ex |-> FALSE, valid |-> FALSE, broken |-> FALSE,
            kind |-> 0, inputs |-> {}, loaded |-> {}, code |-> EMPTY, output |-> EMPTY, temp |-> EMPTY,
            stray |-> 0, junk |-> FALSE, prot |-> TRUE, wr |-> TRUE]
NoFile == Failure("")
NoCmd == [op |-> "env", ws |-> "", nick |-> "", nickok |-> TRUE, reft |-> "none", ref |-> "", file |-> NoFile,
          t |-> INF, off |-> 0, box |-> "", loc |-> "", sel |-> "", review |-> FALSE, force |-> FALSE,
          now |-> now, newf |-> "", newa |-> NoArchive, fresh |-> {}, cwd |-> <<>>, fault |-> "", faultop |-> ""]

Init ==
    /\ s = [reg |-> InitReg,
            box |-> [l \in Locs |-> [ex |-> l # "home", indexed |-> FALSE, files |-> {}, idx |-> {}]],
            ws |-> [w \in Wss |-> NoWs(w)],
            rest |-> 0]
    /\ now = 1 /\ kmax = 0 /\ made = {} /\ dirty = {}
    /\ hist = [cmd |-> NoCmd, st |-> "ok", pre |-> s]

Times == (1 .. now) \cup {INF}
BoxNames == {"", "A", "B"}
\* names of beads in use
Cmd(op) == [NoCmd EXCEPT !.op = op]
CmdsOf(op) ==
    CASE op = "new" -> IF kmax < MaxKind THEN {[Cmd(op) EXCEPT !.ws = w, !.fresh = {kmax + 1}] : w \in Wss} ELSE {}
      [] op = "edit" -> {[Cmd(op) EXCEPT !.ws = w, !.reft = "name", !.ref = r, !.t = t, !.review = rv] :
                          w \in Wss, r \in Wss, t \in Times, rv \in BOOLEAN}
      [] op = "discard" -> {[Cmd(op) EXCEPT !.ws = w] : w \in Wss}
      [] op = "save" -> IF now > MaxSaves THEN {}
                        ELSE {[Cmd(op) EXCEPT !.ws = w, !.box = b,
                                 !.newf = w \o "@" \o ToString(now),
                                 !.newa = [NoArchive EXCEPT !.id = now, !.cid = now]] : w \in Wss, b \in BoxNames}
      [] op = "add" -> {[Cmd(op) EXCEPT !.ws = w, !.nick = n, !.reft = "name", !.ref = r, !.t = t] :
                          w \in Wss, n \in Nicks_, r \in Wss, t \in Times}
      [] op = "update" -> {[Cmd(op) EXCEPT !.ws = w, !.nick = n, !.t = t] : w \in Wss, n \in Nicks_ \cup {""}, t \in Times}
                          \cup {[Cmd(op) EXCEPT !.ws = w, !.nick = n, !.off = o] : w \in Wss, n \in Nicks_, o \in {1, -1}}
                          \cup {[Cmd(op) EXCEPT !.ws = w, !.nick = n, !.reft = "name", !.ref = r] :
                                  w \in Wss, n \in Nicks_, r \in Wss}
      [] op \in {"load", "unload"} -> {[Cmd(op) EXCEPT !.ws = w, !.nick = n] : w \in Wss, n \in Nicks_ \cup {""}}
      [] op = "delete" -> {[Cmd(op) EXCEPT !.ws = w, !.nick = n] : w \in Wss, n \in Nicks_}
      [] op = "boxadd" -> {[Cmd(op) EXCEPT !.box = b, !.loc = l] : b \in {"A", "B"}, l \in {"b1", "b2"}}
      [] op = "forget" -> {[Cmd(op) EXCEPT !.box = b] : b \in {"A", "B", "home"}}
      [] op \in {"index", "reindex"} ->
            {[Cmd(op) EXCEPT !.sel = "all"], [Cmd(op) EXCEPT !.sel = "default"]}
            \cup {[Cmd(op) EXCEPT !.sel = "one", !.box = b] : b \in {"A", "B"}}
            \cup {[Cmd(op) EXCEPT !.sel = "dir", !.loc = l] : l \in {"b1", "b2"}}
      [] op = "status" -> {[Cmd(op) EXCEPT !.ws = w] : w \in Wss}
      [] OTHER -> {}

IndexedBy(c) == CASE c.sel = "all" -> LocsRegistered(s)
                  [] c.sel = "dir" -> {c.loc}
                  [] c.sel = "one" -> IF c.box \in NamesRegistered(s) THEN {BoxNamed(s, c.box)} ELSE {}
                  [] OTHER -> IF Len(s.reg) = 1 THEN LocsRegistered(s) ELSE {}

Command(c) ==
    \E o \in Outcomes(s, c) :
        /\ s' = o.s
        /\ now' = IF c.op = "save" /\ o.s # s THEN now + 1 ELSE now
        /\ kmax' = IF c.op = "new" /\ o.s # s THEN kmax + 1 ELSE kmax
        /\ made' = made \cup UNION {{x.a : x \in o.s.box[l].files} : l \in Locs}
        /\ dirty' = CASE c.op = "index" -> dirty \ ({"sync"} \X IndexedBy(c))
                       [] c.op = "reindex" -> dirty \ ({"sync", "rebuild"} \X IndexedBy(c))
                       [] OTHER -> dirty
        /\ hist' = [cmd |-> c, st |-> o.st, pre |-> s]

EnvOps == {"env", "produce", "remove", "copy", "damage"}
Env(c, t, d) ==
    /\ s' = t /\ dirty' = dirty \cup d
    /\ UNCHANGED <<now, kmax, made>>
    /\ hist' = [cmd |-> c, st |-> "ok", pre |-> s]

Produce(w) == s.ws[w].valid /\ s.ws[w].output = EMPTY /\ Env([Cmd("produce") EXCEPT !.ws = w], Put(s, w, [s.ws[w] EXCEPT !.output = now]), {})
Remove(l, x) == Env([Cmd("remove") EXCEPT !.loc = l, !.newf = x.f], [s EXCEPT !.box[l].files = @ \ {x},
                              !.box[l].idx = {IF i.f = x.f THEN [i EXCEPT !.f = "!L"] ELSE i : i \in @}], {<<"sync", l>>})
Copy(l, x, m) ==
    /\ \A y \in s.box[m].files : y.f # x.f
    /\ Env([Cmd("copy") EXCEPT !.loc = l, !.box = m, !.newf = x.f],
           [s EXCEPT !.box[m].files = @ \cup {x}], {<<IF \E i \in s.box[m].idx : i.f = x.f \/ i.f = "!L" THEN "rebuild" ELSE "sync", m>>})
Damage(l, x) ==
    /\ x.a.ok
    /\ Env([Cmd("damage") EXCEPT !.loc = l, !.newf = x.f],
           [s EXCEPT !.box[l].files = (@ \ {x}) \cup {[x EXCEPT !.a = [@ EXCEPT !.ok = FALSE]]}], {<<"rebuild", l>>})

Next == \/ \E op \in Ops : \E c \in CmdsOf(op) : Command(c)
        \/ "produce" \in Ops /\ \E w \in Wss : Produce(w)
        \/ "remove" \in Ops /\ \E l \in Locs : \E x \in s.box[l].files : Remove(l, x)
        \/ "copy" \in Ops /\ \E l, m \in Locs : s.box[m].ex /\ \E x \in s.box[l].files : Copy(l, x, m)
        \/ "damage" \in Ops /\ \E l \in Locs : \E x \in s.box[l].files : Damage(l, x)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the properties *)

Fresh == {l \in Locs : <<"sync", l>> \notin dirty /\ <<"rebuild", l>> \notin dirty}

Registry == RegistryConsistent(s)

\* C09: loaded data is the data of the recorded bead
InputIntegrity ==
    \A w \in Wss : s.ws[w].valid =>
        /\ InputsWellFormed(s.ws[w]) /\ LoadedAreInputs(s.ws[w])
        /\ \A l \in s.ws[w].loaded :
              LET i == InputOf(s.ws[w], l.nick)
              IN \E a \in made : a.ok /\ a.cid = i.cid /\ a.kind = i.kind /\ a.time = i.time /\ a.data = l.tree

\* C07: an up to date index offers exactly what the directory holds
IndexTransparent ==
    \A l \in Fresh : LET b == s.box[l]
        IN b.indexed => /\ IndexExact(b, now)
                        /\ (\A x \in b.files : x.a.ok) => Listing(b) = Listing([b EXCEPT !.indexed = FALSE])
                        /\ \A e \in Listing(b) : \A p \in Places(b, e) : IsArchive(p) /\ Entry(p) = e

\* nothing unreadable or unverifiable is admitted to an index
IndexAdmitsIntact == \A l \in Fresh : \A i \in s.box[l].idx : \E a \in made : a.ok /\ a.cid = i.e.cid

WriteProtected == Protected(s)

\* C23: what status tells agrees with what loading and updating would find
ReportAgrees ==
    \A w \in Wss : s.ws[w].valid =>
        \A i \in s.ws[w].inputs :
            /\ StoredNames(s, i) = {} => ByCid(s, i.cid, 1) = {None}
            /\ (Sources(s, i) = {}) = (ByKind(s, i.kind, i.time) = {None})
            /\ StoredNames(s, i) # {} => Sources(s, i) # {}
            /\ \A n \in Sources(s, i) : \A c \in SourcesAt(s, i, n) : c.e.cid = i.cid => c.e.name \in StoredNames(s, i)

\* every command: see the step properties below
IsCmd == hist'.cmd.op \notin EnvOps
C == hist'.cmd
CommandsKeepArchives == [][IsCmd => AppendOnly(s, s')]_vars
OnlySaveAdds == [][IsCmd /\ C.op # "save" => \A l \in Locs : s.box[l].files = s'.box[l].files]_vars
SaveAddsOne == [][IsCmd /\ C.op = "save" =>
                    LET added == UNION {{l} \X (s'.box[l].files \ s.box[l].files) : l \in Locs}
                    IN Cardinality(added) = IF hist'.st = "ok" THEN 1 ELSE 0]_vars
RefusalsChangeNothing == [][IsCmd /\ hist'.st = "err" => s' = s]_vars
OnlyTargetChanges == [][IsCmd => \A w \in Wss : w # C.ws => s'.ws[w] = s.ws[w]]_vars
IndexOnlyByOwners == [][IsCmd /\ C.op \notin {"index", "reindex", "save"} => \A l \in Locs : s'.box[l] = s.box[l]]_vars
RegistryOnlyByOwners == [][IsCmd /\ C.op \notin {"boxadd", "forget", "save"} => s'.reg = s.reg]_vars
OtherInputsUntouched ==
    [][IsCmd /\ C.nick # "" =>
        \A w \in Wss : /\ {i \in s.ws[w].inputs : i.nick # C.nick} = {i \in s'.ws[w].inputs : i.nick # C.nick}
                       /\ {i \in s.ws[w].loaded : i.nick # C.nick} = {i \in s'.ws[w].loaded : i.nick # C.nick}]_vars
KindsAreKept == [][\A w \in Wss : s.ws[w].valid /\ s'.ws[w].valid => s.ws[w].kind = s'.ws[w].kind]_vars
SourcesUntouched ==
    [][IsCmd /\ C.op \notin {"new", "edit", "discard"} =>
        \A w \in Wss : s.ws[w].code = s'.ws[w].code /\ s.ws[w].output = s'.ws[w].output /\ s.ws[w].ex = s'.ws[w].ex]_vars
FreshKinds == [][IsCmd /\ C.op = "new" /\ s' # s =>
                    /\ \A a \in made : a.kind # s'.ws[C.ws].kind
                    /\ \A w \in Wss \ {C.ws} : s.ws[w].valid => s.ws[w].kind # s'.ws[C.ws].kind]_vars
EditRestores == [][IsCmd /\ C.op = "edit" /\ s' # s =>
                    \E a \in made : LET w == s'.ws[C.ws]
                      IN /\ a.ok /\ w.kind = a.kind /\ w.inputs = a.inputs /\ w.code = a.code /\ w.loaded = {}
                         /\ w.output = IF C.review THEN a.data ELSE EMPTY]_vars
=============================================================================
