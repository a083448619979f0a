---------------------------- MODULE ContainTrace ----------------------------
(***************************************************************************)
(* Judges what has been changed in the file system by commands of the real *)
(* tool: nothing outside of the folder it works on.                        *)
(*                                                                         *)
(* A recording has paths (sequences of names), nodes ([kind, w, c, to]),   *)
(* and steps with states a before and b after: numbers of the nodes at the *)
(* paths, 0 if nothing is there.                                           *)
(***************************************************************************)
EXTENDS Contain, SequencesExt, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
R(q) == {q[i] : i \in DOMAIN q}
FsOf(tt, s) == LET d == Data[tt] here == {i \in DOMAIN s : s[i] # 0}
               IN [p \in {d.paths[i] : i \in here} |-> LET i == CHOOSE i \in here : d.paths[i] = p IN d.nodes[s[i]]]
Input(ws) == Append(ws, "input")
InputOps == {"add", "load", "update", "unload", "delete"}
\* the workspace may have been named through links
Ws(tt, s, c) == IF c.via THEN At(FsOf(tt, s), c.ws) ELSE c.ws
\* path p may have been changed by command c
Allowed(c, ws, p, s1, paths) ==
    CASE c.op \in {"edit", "new", "discard"} -> Within(p, ws) \/ p = c.ws
      [] c.op = "save" -> Within(p, c.box)
      [] c.op \in InputOps ->
            \/ p = Input(ws)
            \/ Within(p, Append(Input(ws), c.nick))
            \/ Within(p, Append(ws, ".bead-meta"))
            \* something new in the folder of the inputs: it is temporary
            \/ /\ Len(p) > Len(ws) + 1 /\ Within(p, Input(ws))
               /\ \A i \in DOMAIN s1 : s1[i] # 0 => paths[i] # SubSeq(p, 1, Len(ws) + 2)
      [] OTHER -> FALSE
\* content of archives: entries [sub: "data" or "code", abs, cs, c]
Layout == {"input", "output", "temp", ".bead-meta"}
Unpackable(es) == /\ ProperTogether({[abs |-> e.abs, cs |-> e.cs] : e \in R(es)})
                  /\ \A e \in R(es) : e.sub = "code" => e.cs[1] \notin Layout
                  /\ Cardinality({<<e.sub, e.cs>> : e \in R(es)}) = Len(es)
ByPath(tt) == [p \in R(Data[tt].paths) |-> CHOOSE i \in DOMAIN Data[tt].paths : Data[tt].paths[i] = p]
HasFile(tt, s, index, p, c) == p \in DOMAIN index /\ LET i == index[p] IN s[i] # 0 /\ Data[tt].nodes[s[i]].kind = "file" /\ Data[tt].nodes[s[i]].c = c
Clauses(tt, n, index) ==
    LET d == Data[tt] c == d.steps[n].cmd st == d.steps[n].st
        s1 == d.steps[n].a s2 == d.steps[n].b
        ws == Ws(tt, s1, c)
        at(p) == IF p \in DOMAIN index THEN s2[index[p]] ELSE 0
        before(p) == IF p \in DOMAIN index THEN s1[index[p]] ELSE 0
        x == Append(Input(ws), c.nick)
        loading == c.op \in {"add", "update", "load"} /\ before(x) = 0 /\ c.bead
    IN (IF \A i \in DOMAIN s1 : s1[i] # s2[i] => Allowed(c, ws, d.paths[i], s1, d.paths) THEN {} ELSE {"contain:outside"})
       \cup (IF c.op = "discard" /\ st = "ok" /\ ~c.via => \A i \in DOMAIN s2 : Within(d.paths[i], ws) => s2[i] = 0 THEN {} ELSE {"contain:left"})
       \cup (IF (c.op \in {"unload", "delete"} /\ st = "ok" /\ before(x) # 0 /\ d.nodes[before(x)].kind = "dir") => \A i \in DOMAIN s2 : Within(d.paths[i], x) => s2[i] = 0 THEN {} ELSE {"contain:left"})
       \cup (IF c.op \in InputOps /\ st = "ok" /\ ~c.faulty =>
                  \A i \in DOMAIN s2 : (s1[i] = 0 /\ s2[i] # 0 /\ Within(d.paths[i], Input(ws))) => Within(d.paths[i], x) THEN {} ELSE {"contain:left"})
       \cup (IF loading /\ st \in {"ok", "err"} /\ ~c.faulty /\ Unpackable(c.entries)
             THEN IF /\ st = "ok"
                     /\ \A e \in R(c.entries) : e.sub = "data" => HasFile(tt, s2, index, x \o e.cs, e.c)
                     /\ Cardinality({i \in DOMAIN s2 : Within(d.paths[i], x) /\ s2[i] # 0 /\ d.nodes[s2[i]].kind # "dir"}) = Cardinality({e \in R(c.entries) : e.sub = "data"})
                  THEN {} ELSE {"contain:content"} ELSE {})
       \cup (IF c.op = "edit" /\ before(ws) = 0 /\ st \in {"ok", "err"} /\ ~c.faulty /\ c.bead /\ Unpackable(c.entries)
             THEN IF /\ st = "ok"
                     /\ \A e \in R(c.entries) : e.sub = "code" => HasFile(tt, s2, index, ws \o e.cs, e.c)
                     /\ \A e \in R(c.entries) : e.sub = "data" /\ c.review => HasFile(tt, s2, index, Append(ws, "output") \o e.cs, e.c)
                  THEN {} ELSE {"contain:content"} ELSE {})
VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n, ByPath(tt)) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
