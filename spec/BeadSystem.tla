----------------------------- MODULE BeadSystem -----------------------------
(***************************************************************************)
(* What every bead command does to the registry of boxes, the boxes, their *)
(* indexes and the workspaces.                                             *)
(*                                                                         *)
(* The meaning of a command is given by Outcomes(s, c): the set of allowed *)
(* results [st, s] of command c in state s - exit status and next state.   *)
(* The same operator is used for exhaustive model checking (MCBead), for   *)
(* generating behaviours that are replayed in the real tool (GenBead) and  *)
(* for judging recorded executions of the real tool (BeadTrace).           *)
(*                                                                         *)
(* state s:                                                                *)
(*  reg   sequence of [name, loc]                the known boxes           *)
(*  box   loc -> [ex, indexed, files, idx]       directories of boxes      *)
(*        files set of [f, bn, ext, a]  f file name, bn bead name or "",   *)
(*                                      ext: is it a *.zip, a archive      *)
(*        idx   set of [e, f]           indexed entry e, stored in file f  *)
(*  ws    id -> workspace record (see NoWs)                                *)
(*  rest  everything else (opaque)                                         *)
(* archive a: [id, meta, ok, cid, kind, name, time, inputs, data, code]    *)
(*   meta  metadata is readable; ok: content agrees with the manifest      *)
(* times are integers (ranks), INF is "no limit"                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000
EMPTY == 0               \* the empty tree of files

-----------------------------------------------------------------------------
(* archives, boxes, listings *)

Intact(a, now) == a.meta /\ a.ok /\ a.time <= now
NoArchive == [id |-> 0, meta |-> FALSE, ok |-> FALSE, cid |-> 0, kind |-> 0, name |-> "", time |-> 0,
              inputs |-> {}, data |-> 0, code |-> 0]
Failure(tag) == [f |-> tag, bn |-> "", ext |-> FALSE, a |-> NoArchive]
None == Failure("!none")     \* no such bead
Lost == Failure("!lost")     \* its file is gone
Bad == Failure("!bad")       \* its file can not be used
IsArchive(r) == r.f \notin {"!none", "!lost", "!bad"}
Presentable(x) == x.ext /\ x.bn # "" /\ x.a.meta
Admissible(x, now) == x.ext /\ x.bn # "" /\ Intact(x.a, now)
Entry(x) == [name |-> x.bn, cid |-> x.a.cid, kind |-> x.a.kind,
             time |-> x.a.time, inputs |-> x.a.inputs]

\* the beads a box offers
Listing(b) == IF ~b.ex THEN {}
              ELSE IF b.indexed THEN {i.e : i \in b.idx}
              ELSE {Entry(x) : x \in {y \in b.files : Presentable(y)}}

\* what becomes of asking box b for the archive of its bead e:
\* an archive file, Lost (no file) or Bad (file is not the archive of e)
Places(b, e) ==
    IF b.indexed
    THEN UNION {LET xs == {x \in b.files : x.f = i.f}
                IN IF xs = {} THEN {IF i.f = "!B" THEN Bad ELSE Lost}
                   ELSE {IF x.a.meta /\ x.a.cid = e.cid THEN x ELSE Bad : x \in xs}
                : i \in {j \in b.idx : j.e = e}}
    ELSE {x \in b.files : Presentable(x) /\ Entry(x) = e}

Boxes(s) == 1 .. Len(s.reg)
NoBox == [ex |-> FALSE, indexed |-> FALSE, files |-> {}, idx |-> {}]
BoxIn(s, loc) == IF loc \in DOMAIN s.box THEN s.box[loc] ELSE NoBox
BoxAt(s, i) == BoxIn(s, s.reg[i].loc)
Candidates(s, P(_)) == UNION {{[b |-> i, e |-> e] : e \in {d \in Listing(BoxAt(s, i)) : P(d)}} : i \in Boxes(s)}
Newest(C) == {c \in C : \A d \in C : d.e.time <= c.e.time}
Oldest(C) == {c \in C : \A d \in C : d.e.time >= c.e.time}
Archives(s, C) == UNION {Places(BoxAt(s, c.b), c.e) : c \in C}
Or(S, x) == IF S = {} THEN {x} ELSE S

NamesRegistered(s) == {s.reg[i].name : i \in Boxes(s)}
LocsRegistered(s) == {s.reg[i].loc : i \in Boxes(s)}
BoxNamed(s, nm) == s.reg[CHOOSE i \in Boxes(s) : s.reg[i].name = nm].loc

-----------------------------------------------------------------------------
(* workspaces *)

Gone(w) == [w EXCEPT !.ex = FALSE, !.valid = FALSE, !.kind = 0, !.inputs = {}, !.loaded = {},
                     !.code = EMPTY, !.output = EMPTY, !.temp = EMPTY, !.stray = EMPTY, !.junk = FALSE,
                     !.prot = TRUE, !.wr = TRUE, !.broken = FALSE]
Created(w, kind, inputs, code, output) ==
    [Gone(w) EXCEPT !.ex = TRUE, !.valid = TRUE, !.kind = kind, !.inputs = inputs,
                    !.code = code, !.output = output]
Nicks(w) == {i.nick : i \in w.inputs}
InputOf(w, nick) == CHOOSE i \in w.inputs : i.nick = nick
IsLoaded(w, nick) == \E l \in w.loaded : l.nick = nick
Unloaded(w, nick) == [w EXCEPT !.loaded = {l \in @ : l.nick # nick}]
RefTo(nick, a) == [nick |-> nick, kind |-> a.kind, cid |-> a.cid, time |-> a.time]
WithInput(w, nick, a) ==
    [w EXCEPT !.inputs = {i \in @ : i.nick # nick} \cup {RefTo(nick, a)},
              !.loaded = {l \in @ : l.nick # nick} \cup {[nick |-> nick, tree |-> a.data]}]
WithoutInput(w, nick) == [Unloaded(w, nick) EXCEPT !.inputs = {i \in @ : i.nick # nick}]

Put(s, id, w) == [s EXCEPT !.ws[id] = w]
Res(st, s) == [st |-> st, s |-> s]
Refused(s) == {Res("err", s)}
Done(s) == {Res("ok", s)}
Unchanged(s) == {Res("any", s)}

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* the workspace a command acts on: the given one, or the innermost one around the current directory
Enclosing(s, cwd) == {id \in DOMAIN s.ws : s.ws[id].valid /\ IsPrefixOf(s.ws[id].path, cwd)}
Innermost(s, cwd) == CHOOSE id \in Enclosing(s, cwd) :
                        \A o \in Enclosing(s, cwd) : Len(s.ws[o].path) <= Len(s.ws[id].path)
Target(s, c) == IF c.ws # "" THEN c.ws
                ELSE IF Enclosing(s, c.cwd) = {} THEN "" ELSE Innermost(s, c.cwd)
HasTarget(s, c) == Target(s, c) # "" /\ s.ws[Target(s, c)].valid

-----------------------------------------------------------------------------
(* finding beads *)

\* result of naming a bead: archive files, None, Lost or Bad
ByName(s, nm, t) == Or(Archives(s, Newest(Candidates(s, LAMBDA e : e.name = nm /\ e.time <= t))), None)
ByRef(s, c) ==
    IF c.reft = "file" THEN {IF c.file.bn # "" /\ c.file.a.meta THEN c.file ELSE Bad}
    ELSE ByName(s, c.ref, c.t)
ByKind(s, kind, t) == Or(Archives(s, Newest(Candidates(s, LAMBDA e : e.kind = kind /\ e.time <= t))), None)
NextOf(s, kind, t) == Or(Archives(s, Oldest(Candidates(s, LAMBDA e : e.kind = kind /\ e.time > t))), None)
PrevOf(s, kind, t) == Or(Archives(s, Newest(Candidates(s, LAMBDA e : e.kind = kind /\ e.time < t))), None)

\* the archive used for loading: first box that has it, any of its copies there
RECURSIVE ByCid(_, _, _)
ByCid(s, cid, from) ==
    IF from > Len(s.reg) THEN {None}
    ELSE LET es == {e \in Listing(BoxAt(s, from)) : e.cid = cid}
             here == Archives(s, {[b |-> from, e |-> e] : e \in es})
             good == {r \in here : IsArchive(r)}
         IN good \cup (IF good = here /\ here # {} THEN {} ELSE ByCid(s, cid, from + 1))

-----------------------------------------------------------------------------
(* what the status command tells about input i of workspace w *)

\* names under which the referenced bead is stored
StoredNames(s, i) == {c.e.name : c \in Candidates(s, LAMBDA e : e.cid = i.cid)}
\* boxes having beads of the kind, not newer than the input: the newest ones there
SourcesAt(s, i, n) == Newest({c \in Candidates(s, LAMBDA e : e.kind = i.kind /\ e.time <= i.time) : c.b = n})
Sources(s, i) == {n \in Boxes(s) : SourcesAt(s, i, n) # {}}

-----------------------------------------------------------------------------
(* commands on workspaces *)

NewOutcomes(s, c) ==
    LET w == s.ws[c.ws]
    IN IF w.ex \/ ~w.nameok THEN Refused(s)
       ELSE {Res("ok", Put(s, c.ws, Created(w, k, {}, EMPTY, EMPTY))) : k \in c.fresh}

EditOutcomes(s, c) ==
    UNION {IF ~IsArchive(x) \/ (IsArchive(x) => ~Intact(x.a, c.now)) THEN Refused(s)
           ELSE LET ids == IF c.ws # "" THEN {c.ws} ELSE {id \in DOMAIN s.ws : s.ws[id].path = Append(c.cwd, x.bn)}
                IN UNION {IF s.ws[id].ex THEN Refused(s)
                          ELSE Done(Put(s, id, Created(s.ws[id], x.a.kind, x.a.inputs, x.a.code,
                                                       IF c.review THEN x.a.data ELSE EMPTY)))
                          : id \in ids}
           : x \in ByRef(s, c)}

DiscardOutcomes(s, c) ==
    IF c.ws = "" /\ Enclosing(s, c.cwd) = {} THEN Refused(s)     \* --force is not used this way
    ELSE LET id == Target(s, c) w == s.ws[id]
         IN IF w.ex /\ (w.valid \/ c.force)
            THEN Done([s EXCEPT !.ws = [o \in DOMAIN @ |-> IF IsPrefixOf(w.path, @[o].path) THEN Gone(@[o]) ELSE @[o]]])
            ELSE Refused(s)

\* archive made by saving w: whatever the tool created, with the facts that matter fixed
Saved(w, c) == [c.newa EXCEPT !.meta = TRUE, !.ok = TRUE, !.kind = w.kind, !.name = w.name,
                              !.time = c.now, !.inputs = w.inputs, !.data = w.output, !.code = w.code]
StoreIn(s, loc, w, c) ==
    LET b == BoxIn(s, loc)
        x == [f |-> c.newf, bn |-> w.name, ext |-> TRUE, a |-> Saved(w, c)]
    IN IF ~b.ex \/ ~w.nameok THEN Refused(s)
       ELSE IF c.newf = "" THEN IF \E y \in b.files : y.bn = w.name /\ y.a.time = c.now   \* its file name is taken
                            THEN Refused(s) ELSE {}
       ELSE Done([s EXCEPT !.box[loc].files = @ \cup {x},
                           !.box[loc].idx = IF b.indexed
                                            THEN {i \in @ : i.e # Entry(x)} \cup {[e |-> Entry(x), f |-> c.newf]}
                                            ELSE @])
Home == <<[name |-> "home", loc |-> "home"]>>
SaveOutcomes(s, c) ==
    IF ~HasTarget(s, c) THEN Refused(s)
    ELSE LET w == s.ws[Target(s, c)]
         IN IF c.box # ""
            THEN IF c.box \in NamesRegistered(s) THEN StoreIn(s, BoxNamed(s, c.box), w, c) ELSE Refused(s)
            ELSE IF Len(s.reg) = 0
            THEN StoreIn([s EXCEPT !.reg = Home, !.box["home"].ex = TRUE],
                         "home", w, c)
            ELSE IF Len(s.reg) = 1 THEN StoreIn(s, s.reg[1].loc, w, c)
            ELSE Refused(s)

-----------------------------------------------------------------------------
(* commands on inputs *)

\* load archive x as input nick, if it is not damaged
TryLoad(w, nick, x, now) == IF Intact(x.a, now) THEN WithInput(w, nick, x.a) ELSE w
UpdateTo(w, nick, x, now) ==
    IF IsLoaded(w, nick) /\ InputOf(w, nick).cid = x.a.cid THEN w ELSE TryLoad(w, nick, x, now)
Verdict(x, now) == IF Intact(x.a, now) THEN "ok" ELSE "any"

NotUsable(s, x) == IF x = Bad THEN Unchanged(s) ELSE Refused(s)

AddOutcomes(s, c) ==
    IF ~HasTarget(s, c) \/ ~c.nickok THEN Refused(s)
    ELSE LET id == Target(s, c)
         IN UNION {IF ~IsArchive(x) THEN NotUsable(s, x)
                   ELSE {Res(Verdict(x, c.now), Put(s, id, TryLoad(s.ws[id], c.nick, x, c.now)))}
                   : x \in ByRef(s, c)}

UpdateOneOutcomes(s, c, id) ==
    LET w == s.ws[id]
        i == InputOf(w, c.nick)
        found == CASE c.reft # "none" -> ByRef(s, c)
                   [] c.off = 1 -> NextOf(s, i.kind, i.time)
                   [] c.off = -1 -> PrevOf(s, i.kind, i.time)
                   [] OTHER -> ByKind(s, i.kind, c.t)
    IN IF c.nick \notin Nicks(w) THEN Refused(s)
       ELSE IF c.off # 0 /\ (c.t # INF \/ c.reft # "none") THEN Refused(s)
       ELSE UNION {IF ~IsArchive(x) THEN NotUsable(s, x)
                   ELSE {Res(Verdict(x, c.now), Put(s, id, UpdateTo(w, c.nick, x, c.now)))}
                   : x \in found}

RECURSIVE UpdateEach(_, _, _, _)
UpdateEach(s, c, ws, nicks) ==
    IF nicks = {} THEN ws
    ELSE LET nick == CHOOSE n \in nicks : TRUE
             next == UNION {LET i == InputOf(w, nick)
                            IN {IF IsArchive(x) THEN UpdateTo(w, nick, x, c.now) ELSE w
                                : x \in ByKind(s, i.kind, c.t)}
                            : w \in ws}
         IN UpdateEach(s, c, next, nicks \ {nick})

UpdateOutcomes(s, c) ==
    IF ~HasTarget(s, c) THEN Refused(s)
    ELSE LET id == Target(s, c) w == s.ws[id]
         IN IF c.nick # "" THEN UpdateOneOutcomes(s, c, id)
            ELSE IF c.off # 0 THEN Refused(s)
            ELSE {Res("ok", Put(s, id, v)) : v \in UpdateEach(s, c, {w}, Nicks(w))}

LoadOne(s, c, w, nick) ==
    IF IsLoaded(w, nick) THEN {w}
    ELSE {IF IsArchive(x) THEN TryLoad(w, nick, x, c.now) ELSE w : x \in ByCid(s, InputOf(w, nick).cid, 1)}
RECURSIVE LoadEach(_, _, _, _)
LoadEach(s, c, ws, nicks) ==
    IF nicks = {} THEN ws
    ELSE LET nick == CHOOSE n \in nicks : TRUE
         IN LoadEach(s, c, UNION {LoadOne(s, c, w, nick) : w \in ws}, nicks \ {nick})
LoadOutcomes(s, c) ==
    IF ~HasTarget(s, c) THEN Refused(s)
    ELSE LET id == Target(s, c) w == s.ws[id]
         IN IF c.nick # "" /\ c.nick \notin Nicks(w) THEN Refused(s)
            ELSE {Res("any", Put(s, id, v))
                  : v \in LoadEach(s, c, {w}, IF c.nick = "" THEN Nicks(w) ELSE {c.nick})}

UnloadOutcomes(s, c) ==
    IF ~HasTarget(s, c) THEN Refused(s)
    ELSE LET id == Target(s, c) w == s.ws[id]
         IN IF c.nick = "" THEN Done(Put(s, id, [w EXCEPT !.loaded = {}]))
            ELSE IF IsLoaded(w, c.nick) THEN Done(Put(s, id, Unloaded(w, c.nick)))
            ELSE Unchanged(s)

DeleteOutcomes(s, c) ==
    IF ~HasTarget(s, c) THEN Refused(s)
    ELSE LET id == Target(s, c) w == s.ws[id]
         IN IF c.nick \in Nicks(w) THEN Done(Put(s, id, WithoutInput(w, c.nick))) ELSE Refused(s)

-----------------------------------------------------------------------------
(* commands on boxes *)

BoxAddOutcomes(s, c) ==     \* c.loc = "" : not an existing directory
    IF c.loc = "" THEN Unchanged(s)
    ELSE IF ~s.box[c.loc].ex \/ c.box \in NamesRegistered(s) \/ c.loc \in LocsRegistered(s) THEN Unchanged(s)
    ELSE Done([s EXCEPT !.reg = Append(@, [name |-> c.box, loc |-> c.loc])])

BoxForgetOutcomes(s, c) ==
    IF c.box \in NamesRegistered(s)
    THEN Done([s EXCEPT !.reg = SelectSeq(@, LAMBDA r : r.name # c.box)])
    ELSE Unchanged(s)

\* all the ways to pick a file for each entry
RECURSIVE Pick(_, _)
Pick(es, files) ==
    IF es = {} THEN {{}}
    ELSE LET e == CHOOSE d \in es : TRUE
             rest == Pick(es \ {e}, files)
         IN {{[e |-> e, f |-> x.f]} \cup r : x \in {y \in files : Entry(y) = e}, r \in rest}

Sync(b, now) ==
    LET known == {i.f : i \in b.idx}
        new == {x \in b.files : Admissible(x, now) /\ x.f \notin known}
        added == {Entry(x) : x \in new}
        kept == {i \in b.idx : i.e \notin added /\ i.f # "!L" /\ (i.f = "!B" \/ \E x \in b.files : x.f = i.f)}
    IN {[b EXCEPT !.indexed = TRUE, !.idx = kept \cup p] : p \in Pick(added, new)}
Rebuild(b, now) ==
    LET good == {x \in b.files : Admissible(x, now)}
    IN {[b EXCEPT !.indexed = TRUE, !.idx = p] : p \in Pick({Entry(x) : x \in good}, good)}

IndexBox(b, c) == IF ~b.ex THEN {b} ELSE IF c.op = "index" THEN Sync(b, c.now) ELSE Rebuild(b, c.now)
RECURSIVE IndexEach(_, _, _)
IndexEach(ss, c, locs) ==
    IF locs = {} THEN ss
    ELSE LET l == CHOOSE x \in locs : TRUE
         IN IndexEach(UNION {{[s EXCEPT !.box[l] = b] : b \in IndexBox(s.box[l], c)} : s \in ss}, c, locs \ {l})

\* c.sel: "one" c.box, "dir" c.loc, "all", "default"
IndexOutcomes(s, c) ==
    LET locs == CASE c.sel = "all" -> LocsRegistered(s)
                  [] c.sel = "dir" -> {c.loc} \ {""}
                  [] c.sel = "one" -> IF c.box \in NamesRegistered(s) THEN {BoxNamed(s, c.box)} ELSE {}
                  [] OTHER -> IF Len(s.reg) = 1 THEN LocsRegistered(s) ELSE {}
    IN {Res("any", t) : t \in IndexEach({s}, c, locs \cap DOMAIN s.box)}

-----------------------------------------------------------------------------
ReadOnlyOps == {"status", "list", "version", "web"}

Outcomes(s, c) ==
    CASE c.op = "new" -> NewOutcomes(s, c)
      [] c.op = "edit" -> EditOutcomes(s, c)
      [] c.op = "discard" -> DiscardOutcomes(s, c)
      [] c.op = "save" -> SaveOutcomes(s, c)
      [] c.op = "add" -> AddOutcomes(s, c)
      [] c.op = "update" -> UpdateOutcomes(s, c)
      [] c.op = "load" -> LoadOutcomes(s, c)
      [] c.op = "unload" -> UnloadOutcomes(s, c)
      [] c.op = "delete" -> DeleteOutcomes(s, c)
      [] c.op = "boxadd" -> BoxAddOutcomes(s, c)
      [] c.op = "forget" -> BoxForgetOutcomes(s, c)
      [] c.op \in {"index", "reindex"} -> IndexOutcomes(s, c)
      [] c.op \in ReadOnlyOps -> Unchanged(s)
      [] c.op = "bogus" -> Refused(s)            \* malformed command lines

-----------------------------------------------------------------------------
(* Commands that were killed, interrupted from the keyboard or hit an I/O  *)
(* error (c.fault is "kill", "int" or "error"): what is wrong with state t *)
(* observed after c started in s and ended with status st.                 *)

OfferedIn(b) == {x \in b.files : Presentable(x)}
EntryNames(S) == {i.e : i \in S}

\* archives: nothing stored is lost, what is new is complete or not offered at all
FaultFiles(s, t, c, st, outs) ==
    {"files:" \o l : l \in {k \in DOMAIN s.box : ~(s.box[k].files \subseteq t.box[k].files)}}
    \cup {"partial:" \o l : l \in {k \in DOMAIN s.box :
            \E x \in OfferedIn(t.box[k]) \ s.box[k].files : ~\E o \in outs : x \in o.s.box[k].files}}
    \cup (IF c.fault # "kill" /\ st # "ok"
          THEN {"leftover:" \o l : l \in {k \in DOMAIN s.box :
                    /\ s.box[k].files # t.box[k].files
                    \* an interrupt can come too late
                    /\ ~(c.fault = "int" /\ \E o \in outs : o.s.box[k].files = t.box[k].files)}} ELSE {})
\* indexes: a save adds at most its own bead; only index commands may lose anything
FaultIndex(s, t, c, outs) ==
    IF c.op \in {"index", "reindex"} THEN {}
    ELSE {"idx:" \o l : l \in {k \in DOMAIN s.box :
            /\ <<s.box[k].indexed, s.box[k].idx>> # <<t.box[k].indexed, t.box[k].idx>>
            /\ \A o \in outs : <<o.s.box[k].indexed, o.s.box[k].idx>> # <<t.box[k].indexed, t.box[k].idx>>}}
FaultReg(s, t, c, outs) ==
    IF \/ t.reg = s.reg
       \/ \E o \in outs : o.s.reg = t.reg
       \/ c.op = "save" /\ s.reg = <<>> /\ t.reg = Home       \* registered, then failed to save
    THEN {} ELSE {"reg:"}

RefsNamed(w, nick) == {i \in w.inputs : i.nick = nick}
LoadedAs(w, nick) == {l \in w.loaded : l.nick = nick}
\* inputs of workspace w (before) and v (after), ws: what the command could have made of w
FaultInput(w, v, ws, nick) ==
    (IF \E u \in {w} \cup ws : RefsNamed(u, nick) = RefsNamed(v, nick) THEN {} ELSE {"inputs:"})
    \cup (IF LoadedAs(v, nick) = {} \/ \E u \in {w} \cup ws :
                /\ RefsNamed(u, nick) = RefsNamed(v, nick) /\ LoadedAs(u, nick) = LoadedAs(v, nick)
          THEN {} ELSE {"loaded:"})
FaultWs(s, t, c, outs) ==
    LET inputop == c.op \in {"add", "update", "load", "unload", "delete"}
        id == Target(s, c)
        kept(w, v) == /\ w.valid = v.valid /\ w.broken = v.broken /\ w.kind = v.kind
                      /\ w.code = v.code /\ w.output = v.output /\ w.ex = v.ex /\ w.temp = v.temp
        others == {k \in DOMAIN s.ws : k # id \/ c.op = "save" \/ c.op \in {"boxadd", "forget", "index", "reindex"}}
    IN {"ws:" \o k : k \in {j \in others : c.op \notin {"new", "edit", "discard"} /\ s.ws[j] # t.ws[j]}}
       \cup (IF ~inputop \/ id = "" THEN {}
             ELSE LET w == s.ws[id] v == t.ws[id] ws == {o.s.ws[id] : o \in outs}
                  IN (IF kept(w, v) THEN {} ELSE {"ws:" \o id})
                     \* data of no input
                     \cup (IF v.stray = w.stray THEN {} ELSE {"stray:" \o id})
                     \cup UNION {FaultInput(w, v, ws, nick) : nick \in Nicks(w) \cup Nicks(v) \cup {l.nick : l \in v.loaded}}
                     \cup (IF c.fault # "kill" /\ c.faultop # "chmod" /\ w.valid /\ ~v.prot THEN {"wprot:" \o id} ELSE {}))
\* outs: results the command would have had without the fault
FaultClauses(s, t, c, st, outs) ==
    FaultFiles(s, t, c, st, outs) \cup FaultIndex(s, t, c, outs) \cup FaultReg(s, t, c, outs) \cup FaultWs(s, t, c, outs)
    \cup (IF s.rest = t.rest THEN {} ELSE {"rest:"})

-----------------------------------------------------------------------------
(* properties of states and steps *)

RegistryConsistent(s) ==
    /\ \A i, j \in Boxes(s) : i # j => s.reg[i].name # s.reg[j].name /\ s.reg[i].loc # s.reg[j].loc

\* an index offers what the box has (holds after index/reindex, and is preserved by saves)
IndexExact(b, now) ==
    b.indexed => /\ {i.e : i \in b.idx} = {Entry(x) : x \in {y \in b.files : Admissible(y, now)}}
                 /\ \A i, j \in b.idx : i.e = j.e => i = j
                 /\ \A i \in b.idx : \E x \in b.files : x.f = i.f /\ Entry(x) = i.e

Protected(s) == \A id \in DOMAIN s.ws : s.ws[id].valid => s.ws[id].prot

\* no stored archive is altered or removed
AppendOnly(s, t) == \A l \in DOMAIN s.box : s.box[l].files \subseteq t.box[l].files

InputsWellFormed(w) == \A i, j \in w.inputs : i.nick = j.nick => i = j
LoadedAreInputs(w) == \A l \in w.loaded : l.nick \in Nicks(w)
=============================================================================
