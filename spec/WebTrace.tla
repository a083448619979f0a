------------------------------ MODULE WebTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the web command: what the graph was after each  *)
(* of the sub-commands, and what was drawn.                                *)
(***************************************************************************)
EXTENDS Web, TLC, Json, IOUtils, Functions
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)

Node(j) == [name |-> j.name, cid |-> j.cid, kind |-> j.kind, t |-> j.t, fresh |-> j.fresh, ins |-> ToSet(j.ins)]
Graph(js) == {Node(js[i]) : i \in DOMAIN js}
\* a graph that can be talked about
Sound(js) == Cardinality({<<js[i].name, js[i].cid>> : i \in DOMAIN js}) = Len(js) /\ WellFormed(Graph(js))
             /\ \A i \in DOMAIN js : Cardinality(ToSet(js[i].ins)) = Len(js[i].ins)

StepClauses(s, pre, prev) ==
    LET js == s.nodes g == Graph(js)
        pure == s.op \in {"build", "load", "same"}
    IN IF s.status # "ok" THEN {"status:" \o s.op}
       ELSE IF s.op = "same" THEN IF pre = g THEN {} ELSE {"order:result"}
       ELSE IF ~Sound(js) THEN {(IF s.op \in {"build", "color", "heads", "filter"} THEN s.op ELSE "keep") \o ":unsound"}
       ELSE CASE s.op = "build" -> BuildClauses(Graph(s.stored), g)
                    \cup (IF ToSet(s.edges) = Links(g) /\ Len(s.edges) = Cardinality(Links(g)) THEN {} ELSE {"build:edges"})
              [] s.op = "load" -> {"load:" \o c : c \in IF Graph(s.stored) = g THEN {} ELSE {"changed"}}
              [] s.op = "color" -> ColourClauses(pre, g)
                    \cup (IF s.verdict # "" /\ (s.verdict = "err" \/ (s.verdict = "yes") # AllFresh(g)) THEN {"color:verdict"} ELSE {})
              [] s.op = "filter" -> IF g = Filter(pre, ToSet(s.sources), ToSet(s.sinks)) THEN {} ELSE {"filter:result"}
              [] s.op = "heads" -> IF g \in Heads(pre) THEN {} ELSE {"heads:result"}
              [] s.op = "keep" -> IF g = pre THEN {} ELSE {"keep:changed"}
Clauses(tt, n) ==
    LET s == Data[tt].steps[n]
        pre == IF n = 1 THEN {} ELSE Graph(Data[tt].steps[n - 1].nodes)
        drawn == IF s.status = "ok" /\ s.drawn /\ Sound(s.nodes)
                 THEN (IF s.draw.ok THEN DrawClauses(Graph(s.nodes), s.draw) ELSE {"draw:malformed"}) ELSE {}
    IN IF n > 1 /\ (Data[tt].steps[n - 1].status # "ok" \/ (s.op # "same" /\ ~Sound(Data[tt].steps[n - 1].nodes))) THEN {}
       ELSE StepClauses(s, pre, n) \cup drawn \cup (IF s.image = "differs" THEN {"draw:image"} ELSE {})

VARIABLES t, l
Init == t \in Traces /\ l = 0
Verdict(tt, n) == LET v == Clauses(tt, n) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, n, SetToSeq(v)>>)
Next == /\ l < Len(Data[t].steps)
        /\ Verdict(t, l + 1)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
Accepted == TLCGet("stats").distinct = FoldFunction(LAMBDA x, y : x + y, 0, [tt \in Traces |-> Len(Data[tt].steps) + 1])
=============================================================================
