----------------------------- MODULE BeadTrace -----------------------------
(***************************************************************************)
(* Judges recorded executions of the real tool against BeadSystem.         *)
(* IOEnv.TRACE names a JSON file: a sequence of traces, each a sequence of *)
(* observed states with the commands executed between them.                *)
(* Every step is judged: the observed result must be among Outcomes.       *)
(* A verdict line is printed for each step that is not, naming the         *)
(* components of the state that differ from every allowed outcome.         *)
(***************************************************************************)
EXTENDS BeadSystem, Json, IOUtils, SequencesExt

Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1 .. Len(Data)

RefOf(j) == [nick |-> j[1], kind |-> j[2], cid |-> j[3], time |-> j[4]]
RefsOf(js) == {RefOf(js[i]) : i \in DOMAIN js}
ArchiveOf(t, n) ==
    IF n = 0 THEN NoArchive
    ELSE LET a == Data[t].archives[n]
         IN [id |-> n, meta |-> a.meta, ok |-> a.ok, cid |-> a.cid, kind |-> a.kind, name |-> a.name,
             time |-> a.time, inputs |-> RefsOf(a.inputs), data |-> a.data, code |-> a.code]
FileOf(t, j) == [f |-> j[1], bn |-> j[2], ext |-> j[3], a |-> ArchiveOf(t, j[4])]
EntryOf(j) == [name |-> j.name, cid |-> j.cid, kind |-> j.kind, time |-> j.time, inputs |-> RefsOf(j.inputs)]
IdxOf(b) == {[e |-> EntryOf(b.list[i]), f |-> b.list[i].f] : i \in DOMAIN b.list}
BoxOf(t, b) ==
    [ex |-> b.ex, indexed |-> b.indexed, files |-> {FileOf(t, b.files[i]) : i \in DOMAIN b.files},
     idx |-> IF b.indexed THEN IdxOf(b) ELSE {}]
WsOf(w) == [w EXCEPT !.inputs = RefsOf(w.inputs),
                     !.loaded = {[nick |-> w.loaded[i][1], tree |-> w.loaded[i][2]] : i \in DOMAIN w.loaded}]
StateOf(t, n) ==
    LET j == Data[t].states[n]
    IN [reg |-> [i \in DOMAIN j.reg |-> [name |-> j.reg[i][1], loc |-> j.reg[i][2]]],
        box |-> [l \in DOMAIN j.box |-> BoxOf(t, j.box[l])],
        ws |-> [w \in DOMAIN j.ws |-> WsOf(j.ws[w])],
        rest |-> j.rest]
CmdOf(t, n) ==
    LET c == Data[t].steps[n].cmd
    IN [c EXCEPT !.file = FileOf(t, c.file), !.newa = ArchiveOf(t, c.newa), !.fresh = ToSet(c.fresh)]

-----------------------------------------------------------------------------
(* what an observed state has to satisfy by itself *)

ObservedListing(t, b) ==
    LET es == {EntryOf(b.list[i]) : i \in DOMAIN b.list}
        files == {FileOf(t, b.files[i]) : i \in DOMAIN b.files}
    IN IF b.indexed \/ ~b.ex THEN TRUE
       ELSE /\ es = {Entry(x) : x \in {y \in files : Presentable(y)}}
            /\ Len(b.list) = Cardinality(es)
            /\ \A i \in DOMAIN b.list : \E x \in files : x.f = b.list[i].f /\ Presentable(x) /\ Entry(x) = EntryOf(b.list[i])
\* a killed command or failed chmod can leave inputs without write protection
Excused(t, n) == \E m \in 1 .. n - 1 : LET c == Data[t].steps[m].cmd IN c.fault = "kill" \/ c.faultop = "chmod"
StateClauses(t, n) ==
    LET j == Data[t].states[n]
        s == StateOf(t, n)
    IN (IF RegistryConsistent(s) THEN {} ELSE {"registry:"})
       \cup {"listing:" \o l : l \in {k \in DOMAIN j.box : ~ObservedListing(t, j.box[k])}}
       \cup {"dup:" \o l : l \in {k \in DOMAIN j.box :
                                   Len(j.box[k].list) # Cardinality({EntryOf(j.box[k].list[i]) : i \in DOMAIN j.box[k].list})}}
       \cup {"broken:" \o w : w \in {k \in DOMAIN s.ws : s.ws[k].broken}}
       \cup {"prot:" \o w : w \in {k \in DOMAIN s.ws : s.ws[k].valid /\ ~s.ws[k].prot /\ ~Excused(t, n)}}
       \cup {"wellformed:" \o w : w \in {k \in DOMAIN s.ws : ~InputsWellFormed(s.ws[k]) \/ ~LoadedAreInputs(s.ws[k])}}

-----------------------------------------------------------------------------
(* components of the state, for naming what is wrong *)

Parts(s) == {<<"reg">>, <<"rest">>}
            \cup ({"files", "idx", "boxdir"} \X DOMAIN s.box)
            \cup ({"ws", "kind", "inputs", "loaded", "code", "output", "temp", "wprot", "wwr", "stray", "junk"} \X DOMAIN s.ws)
Part(s, p) ==
    CASE p[1] = "reg" -> s.reg
      [] p[1] = "rest" -> s.rest
      [] p[1] = "files" -> s.box[p[2]].files
      [] p[1] = "idx" -> <<s.box[p[2]].indexed, s.box[p[2]].idx>>
      [] p[1] = "boxdir" -> s.box[p[2]].ex
      [] p[1] = "ws" -> <<s.ws[p[2]].ex, s.ws[p[2]].valid, s.ws[p[2]].broken, s.ws[p[2]].name>>
      [] p[1] = "kind" -> s.ws[p[2]].kind
      [] p[1] = "inputs" -> s.ws[p[2]].inputs
      [] p[1] = "loaded" -> s.ws[p[2]].loaded
      [] p[1] = "code" -> s.ws[p[2]].code
      [] p[1] = "output" -> s.ws[p[2]].output
      [] p[1] = "temp" -> s.ws[p[2]].temp
      [] p[1] = "wprot" -> s.ws[p[2]].prot
      [] p[1] = "wwr" -> s.ws[p[2]].wr
      [] p[1] = "stray" -> s.ws[p[2]].stray
      [] p[1] = "junk" -> s.ws[p[2]].junk
PartName(p) == IF Len(p) = 1 THEN p[1] \o ":" ELSE p[1] \o ":" \o p[2]
Differ(s, t) == {p \in Parts(s) : Part(s, p) # Part(t, p)}

\* what is wrong with the archive that was made
SavedClauses(t, n, pre, c) ==
    IF c.op # "save" \/ c.newf = "" \/ ~HasTarget(pre, c) THEN {}
    ELSE LET w == pre.ws[Target(pre, c)] a == c.newa
         IN (IF a.meta /\ a.ok THEN {} ELSE {"saved.ok:"})
            \cup (IF a.kind = w.kind THEN {} ELSE {"saved.kind:"})
            \cup (IF a.name = w.name THEN {} ELSE {"saved.name:"})
            \cup (IF a.time = c.now THEN {} ELSE {"saved.time:"})
            \cup (IF a.inputs = w.inputs THEN {} ELSE {"saved.inputs:"})
            \cup (IF a.data = w.output THEN {} ELSE {"saved.data:"})
            \cup (IF a.code = w.code THEN {} ELSE {"saved.code:"})

\* the report of the status command: about all inputs, once, and true
EntryClauses(s, w, c, e) ==
    LET i == InputOf(w, e.nick)
        said(n) == {k \in DOMAIN e.boxes : e.boxes[k].name = s.reg[n].name}
    IN (IF e.loaded = IsLoaded(w, e.nick) THEN {} ELSE {"report.loaded:"})
       \cup (IF e.time = i.time THEN {} ELSE {"report.time:"})
       \cup (IF e.missing = (StoredNames(s, i) = {}) /\ (e.missing \/ e.bead \in StoredNames(s, i)) THEN {} ELSE {"report.bead:"})
       \cup (IF c.verbose => e.kind = <<i.kind>> /\ e.cid = <<i.cid>> THEN {} ELSE {"report.verbose:"})
       \cup (IF /\ \A n \in Boxes(s) : Cardinality(said(n)) = (IF n \in Sources(s, i) THEN 1 ELSE 0)
                /\ Len(e.boxes) = Cardinality(Sources(s, i))
                /\ e.nobox = (Sources(s, i) = {})
             THEN {} ELSE {"report.boxes:"})
       \cup (IF \A n \in Sources(s, i), k \in DOMAIN e.boxes :
                    k \in said(n) => \E b \in SourcesAt(s, i, n) : e.boxes[k].exact = (b.e.cid = i.cid) /\ e.boxes[k].time = b.e.time
             THEN {} ELSE {"report.match:"})
ReportClauses(s, c, st) ==
    IF ~HasTarget(s, c) \/ st # "ok" \/ ~c.rep.judged THEN {}
    ELSE LET w == s.ws[Target(s, c)] r == c.rep
             told == {r.entries[k].nick : k \in DOMAIN r.entries}
         IN IF ~r.readable \/ ~r.shown THEN {"report.unreadable:"}
            ELSE (IF r.name = w.name THEN {} ELSE {"report.name:"})
                 \cup (IF r.kind = IF c.verbose THEN <<w.kind>> ELSE <<>> THEN {} ELSE {"report.kind:"})
                 \cup (IF told = Nicks(w) /\ Len(r.entries) = Cardinality(told) /\ r.none = (told = {}) THEN {} ELSE {"report.inputs:"})
                 \cup UNION {EntryClauses(s, w, c, r.entries[k]) : k \in {j \in DOMAIN r.entries : r.entries[j].nick \in Nicks(w)}}

StepClauses(t, n) ==
    LET c == CmdOf(t, n)
        st == Data[t].steps[n].st
        loose(s) == IF Excused(t, n) THEN [s EXCEPT !.ws = [id \in DOMAIN @ |-> [@[id] EXCEPT !.prot = TRUE]]] ELSE s
        pre == loose(StateOf(t, n))
        post == loose(StateOf(t, n + 1))
        outs == Outcomes(pre, c)
        match == {o \in outs : o.st \in {"any", st}}
    IN IF c.op = "env" THEN {}
       ELSE IF c.fault # "" THEN FaultClauses(pre, post, c, st, Outcomes(pre, [c EXCEPT !.fault = ""]))
       ELSE IF \E o \in match : o.s = post THEN IF c.op = "status" THEN ReportClauses(pre, c, st) ELSE {}
       ELSE LET from == IF match # {} THEN match ELSE outs
                diffs == {Differ(o.s, post) : o \in from}
                told == IF c.op = "status" THEN ReportClauses(pre, c, st) ELSE {}
                least == IF diffs = {} THEN {} ELSE CHOOSE d \in diffs : \A e \in diffs : Cardinality(d) <= Cardinality(e)
            IN told \cup SavedClauses(t, n, pre, c) \cup (IF match = {} THEN {"status:"} ELSE {}) \cup {PartName(p) : p \in least}
               \cup (IF diffs = {} THEN {"impossible:"} ELSE {})

-----------------------------------------------------------------------------
VARIABLES t, l
vars == <<t, l>>
Init == t \in Traces /\ l = 0
Verdict0(tt, n) == LET v == StateClauses(tt, n + 1) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@S", tt, n, SetToSeq(v)>>)
Verdict1(tt, n) == LET v == StepClauses(tt, n) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l <= Len(Data[t].steps)
        /\ Verdict0(t, l)
        /\ IF l > 0 THEN Verdict1(t, l) ELSE TRUE
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
\* every trace was consumed to its end
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Data[n].states) + 1 + Total(n - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Data))
ASSUME \A tt \in Traces : Len(Data[tt].states) = Len(Data[tt].steps) + 1
=============================================================================
