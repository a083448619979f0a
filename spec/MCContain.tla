----------------------------- MODULE MCContain -----------------------------
(***************************************************************************)
(* Unpacking, write protecting and removing done by system calls, one by   *)
(* one - the process may die, and may be started again, in between - with  *)
(* hostile archives, and links placed anywhere in the workspace.           *)
(***************************************************************************)
EXTENDS Contain, TLC, SequencesExt
CONSTANTS CheckEntries,    \* refuse archives with entries leading out of the folder
          CheckLinks,      \* do not follow links when changing permissions
          MaxLinksPlaced, MaxCommands, EntryNames, MaxNames
VARIABLES fs, todo, cmd, seen, placed, ran
vars == <<fs, todo, cmd, seen, placed, ran>>
W == <<"ws", "w1">>
In == Append(W, "input")
X == Append(In, "x")
\* new for every command
TempOf(n) == Append(In, <<"tmp1", "tmp2", "tmp3", "tmp4", "tmp5", "tmp6", "tmp7", "tmp8">>[n])
Temp == TempOf(ran)
NewTemp == TempOf(ran + 1)
Nodes == <<
  <<<<>>, Dir>>, <<<<"rest">>, Dir>>, <<<<"rest", "d">>, Dir>>, <<<<"rest", "d", "g">>, File(1)>>, <<<<"rest", "f">>, [File(2) EXCEPT !.w = FALSE]>>, <<<<"rest", "h">>, File(3)>>,
  <<<<"ws">>, Dir>>, <<W, Dir>>, <<Append(W, "src"), File(4)>>, <<Append(W, "output"), Dir>>, <<Append(W, "output") \o <<"o">>, File(5)>>,
  <<In, [Dir EXCEPT !.w = FALSE]>>, <<Append(In, "a"), [Dir EXCEPT !.w = FALSE]>>, <<In \o <<"a", "f">>, [File(6) EXCEPT !.w = FALSE]>>>>
Start == [p \in {Nodes[i][1] : i \in DOMAIN Nodes} |-> LET i == CHOOSE j \in DOMAIN Nodes : Nodes[j][1] = p IN Nodes[i][2]]
Targets == {<<"rest", "d">>, <<"rest", "f">>, <<"rest", "none">>, <<"ws">>, Append(In, "a"), In \o <<"a", "f">>}
Places == {X, In \o <<"a", "l">>, W \o <<"output", "l">>, Append(W, "l"), In \o <<"x", "l">>}
Entries == UNION {[1..k -> EntryNames] : k \in 1..MaxNames}
Archives == {{[abs |-> abs, cs |-> cs]} : abs \in BOOLEAN, cs \in Entries}

(***************************************************************************)
(* Commands: sequences of system calls                                     *)
(***************************************************************************)
Below(p) == {q \in DOMAIN fs : Within(q, p)}
ByLength(S) == LET RECURSIVE R(_) R(s) == IF s = {} THEN <<>> ELSE LET p == CHOOSE p \in s : \A q \in s : Len(p) <= Len(q) IN <<p>> \o R(s \ {p}) IN R(S)
C(call, p) == [call |-> call, p |-> p, q |-> <<>>, w |-> TRUE, c |-> 0]
Chmod(p, w) == [C("chmod", p) EXCEPT !.w = w]
Rename(p, q) == [C("rename", p) EXCEPT !.q = q]
Write(p, c) == [C("write", p) EXCEPT !.c = c]
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
\* folders on the way to a file
RECURSIVE Upper(_, _)
Upper(p, at) == IF p = at \/ Len(p) <= Len(at) THEN <<>> ELSE Append(Upper(Front1(p), at), C("mkdir", p))
Unpack(es, at) == LET RECURSIVE R(_) R(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE e \in s : TRUE p == Lead(at, e)
                                                                    IN Upper(Front1(p), at) \o <<Write(p, 9)>> \o R(s \ {e})
                  IN <<C("mkdir", at)>> \o R(es)
RemoveAll(p) == IF p \notin DOMAIN fs THEN <<>>
             ELSE IF fs[p].kind = "link" THEN <<C("unlink", p)>>
             ELSE LET all == ByLength(Below(p))
                  IN Map(LAMBDA q : Chmod(q, TRUE), SelectSeq(all, LAMBDA q : ~CheckLinks \/ fs[q].kind # "link"))
                     \o Map(LAMBDA q : C(IF fs[q].kind = "dir" THEN "rmdir" ELSE "unlink", q), Reverse(all))
\* the calls depend on what is there after the preceding ones: "later" continues
Later(what) == [C(what, <<>>) EXCEPT !.call = what]
Acceptable(es) == ~CheckEntries \/ \A e \in es : ~e.abs /\ ".." \notin {e.cs[i] : i \in DOMAIN e.cs}
LoadCalls(es) == IF ~Acceptable(es) \/ IsDir(fs, X) THEN <<>>
                 ELSE <<Chmod(In, TRUE), C("mkdir", NewTemp)>> \o Unpack(es, Append(NewTemp, "x"))
                      \o <<Later("protect"), Chmod(Append(NewTemp, "x"), TRUE), Rename(Append(NewTemp, "x"), X), Later("protectx"), Later("cleanup"), Chmod(In, FALSE)>>
UnloadCalls == IF ~IsDir(fs, X) THEN <<>>
               ELSE <<Chmod(In, TRUE), C("mkdir", NewTemp)>> \o (IF CheckLinks /\ fs[X].kind = "link" THEN <<>> ELSE <<Chmod(X, TRUE)>>)
                    \o <<Rename(X, Append(NewTemp, "x")), Later("cleanup"), Chmod(In, FALSE)>>
EditCalls(es) == IF ~Acceptable(es) \/ <<"ws", "w2">> \in DOMAIN fs THEN <<>> ELSE Unpack(es, <<"ws", "w2">>)
Expand(call) ==
    CASE call.call = "protect" -> Map(LAMBDA q : Chmod(q, FALSE), Reverse(ByLength({q \in Below(Append(Temp, "x")) : fs[q].kind # "link"})))
      [] call.call = "protectx" -> IF Exists(fs, X) /\ (~CheckLinks \/ fs[X].kind # "link") THEN <<Chmod(X, FALSE)>> ELSE <<>>
      [] call.call = "cleanup" -> RemoveAll(Temp)

NoCommand == [op |-> "none", es |-> {}]
Init == fs = Start /\ todo = <<>> /\ cmd = NoCommand /\ seen = Start /\ placed = 0 /\ ran = 0
Idle == todo = <<>>
\* the user, in between
PlaceLink == /\ Idle /\ placed < MaxLinksPlaced
             /\ \E p \in Places, to \in Targets :
                   /\ p \notin DOMAIN fs /\ Front1(p) \in DOMAIN fs /\ fs[Front1(p)].kind = "dir"
                   /\ fs' = Put(fs, p, Link(to))
                   /\ seen' = fs'
             /\ placed' = placed + 1
             /\ cmd' = NoCommand /\ UNCHANGED <<todo, ran>>
Begin(op, es, calls) == /\ cmd' = [op |-> op, es |-> es] /\ todo' = calls /\ seen' = fs
Command == /\ Idle /\ ran < MaxCommands
           /\ W \in DOMAIN fs
           /\ \/ \E es \in Archives : Begin("load", es, LoadCalls(es)) \/ Begin("edit", es, EditCalls(es))
              \/ Begin("unload", {}, UnloadCalls)
              \/ Begin("discard", {}, RemoveAll(W))
           /\ ran' = ran + 1
           /\ UNCHANGED <<fs, placed>>
\* a failing call ends unpacking, but not the cleaning up
Rest(s) == LET is == {i \in DOMAIN s : s[i].call \in {"protectx", "cleanup"}} IN IF is = {} THEN <<>> ELSE SubSeq(s, Least(is), Len(s))
Step == /\ ~Idle
        /\ LET c == Head(todo)
           IN IF c.call \in {"protect", "protectx", "cleanup"} THEN todo' = Expand(c) \o Tail(todo) /\ fs' = fs
              ELSE IF Able(fs, c) THEN fs' = Effect(fs, c) /\ todo' = Tail(todo)
              ELSE IF c.call = "mkdir" /\ IsDir(fs, c.p) THEN fs' = fs /\ todo' = Tail(todo)
              ELSE fs' = fs /\ todo' = Rest(Tail(todo))
        /\ UNCHANGED <<cmd, seen, placed, ran>>
\* the process dies
Die == ~Idle /\ todo' = <<>> /\ cmd' = cmd /\ UNCHANGED <<fs, seen, placed, ran>>
Next == PlaceLink \/ Command \/ Step \/ Die
Spec == Init /\ [][Next]_vars

Area == CASE cmd.op = "edit" -> {<<"ws", "w2">>}
          [] cmd.op = "discard" -> {W}
          [] cmd.op \in {"load", "unload"} -> {X, Temp}
          [] OTHER -> {}
Itself == IF cmd.op \in {"load", "unload"} THEN {In} ELSE {}
\* only places within the folder are changed, at any moment
Contained == \A p \in Changed(seen, fs) : p \in Itself \/ \E d \in Area : Within(p, d)
Sound == \A p \in DOMAIN fs : p = <<>> \/ (Front1(p) \in DOMAIN fs /\ fs[Front1(p)].kind = "dir")
=============================================================================
