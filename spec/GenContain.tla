----------------------------- MODULE GenContain -----------------------------
(***************************************************************************)
(* Behaviours to be executed for real: links placed, archives unpacked,    *)
(* inputs and workspaces removed (with -simulate).                         *)
(***************************************************************************)
EXTENDS MCContain
VARIABLE hist
MoreNames == EntryNames \cup {"", ".", "b", "d", "f", "..a", "src", "input"}
\* mostly well formed ones
Name(wild, k) == IF wild THEN RandomElement(MoreNames \cup {".."} \cup {n \in {"a"} : k = 0}) ELSE RandomElement(MoreNames \ {"", ".", ".."})
\* (with parameters: definitions without are evaluated only once)
Entry(k) == LET wild == TLCEval(RandomElement(1..(3 + 0 * k))) = 1 n == TLCEval(RandomElement(1..(4 + 0 * k)))
            IN TLCEval([abs |-> wild /\ RandomElement(1..3) = 1, cs |-> [i \in 1..n |-> TLCEval(Name(wild, k + i))]])
RandomArchive(k) == TLCEval({Entry(k + i) : i \in 1..TLCEval(RandomElement(1..(3 + 0 * k)))})
Flat(s) == [i \in DOMAIN s |-> <<s[i].abs, s[i].cs>>]
GInit == Init /\ hist = <<>>
GNext ==
    \/ /\ Idle /\ placed < MaxLinksPlaced /\ ran < MaxCommands
       /\ PlaceLink
       /\ hist' = Append(hist, <<"link", CHOOSE p \in Changed(fs, fs') : TRUE, fs'[CHOOSE p \in Changed(fs, fs') : TRUE].to>>)
    \/ /\ Idle /\ ran < MaxCommands
       /\ IF W \notin DOMAIN fs
          THEN \* again
               /\ fs' = Start /\ seen' = Start /\ cmd' = NoCommand /\ hist' = Append(hist, <<"again">>)
               /\ UNCHANGED <<todo, placed, ran>>
          ELSE \E r \in {RandomElement(1..10)}, es \in {RandomArchive(ran)} :
                  /\ CASE r <= 4 -> Begin("load", es, LoadCalls(es))
                       [] r <= 6 -> Begin("edit", es, EditCalls(es))
                       [] r <= 9 -> Begin("unload", {}, UnloadCalls)
                       [] OTHER -> Begin("discard", {}, RemoveAll(W))
                  /\ ran' = ran + 1
                  /\ UNCHANGED <<fs, placed>>
                  /\ hist' = Append(hist, <<cmd'.op, Flat(SetToSeq(cmd'.es))>>)
    \/ /\ ~Idle
       /\ \E r \in {RandomElement(1..40)} : IF r = 1 THEN Die /\ hist' = Append(hist, <<"die", 1>>) ELSE Step /\ hist' = hist
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Idle /\ ran = MaxCommands /\ hist # <<>>) => PrintT(<<"@@B", ran, hist, 0>>)
=============================================================================
