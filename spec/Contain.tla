------------------------------ MODULE Contain ------------------------------
(***************************************************************************)
(* Which places in the file system are reached by unpacking archives and   *)
(* by removing folders.                                                    *)
(*                                                                         *)
(* Paths are sequences of names from a common root.  A file system maps    *)
(* paths to nodes: [kind: "dir", "file" or "link", w: owner may write,     *)
(* c: content, to: path a link points to].                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Front1(p) == SubSeq(p, 1, Len(p) - 1)
End(p) == p[Len(p)]
Within(p, dir) == Len(p) >= Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(***************************************************************************)
(* Entry names of archives: [abs: starts with /, cs: names in between      *)
(* slashes]                                                                *)
(***************************************************************************)
Special == {"", ".", ".."}
\* where it leads, when taken as a path from some folder
RECURSIVE Walk(_, _)
Walk(at, cs) == IF cs = <<>> THEN at
                ELSE LET c == Head(cs)
                     IN Walk(IF c \in {"", "."} THEN at ELSE IF c = ".." THEN (IF at = <<>> THEN at ELSE Front1(at)) ELSE Append(at, c), Tail(cs))
Lead(at, e) == IF e.abs THEN Walk(<<>>, e.cs) ELSE Walk(at, e.cs)
\* can be unpacked (others are refused, or lead to somewhere in the folder)
Proper(e) == ~e.abs /\ e.cs # <<>> /\ \A i \in DOMAIN e.cs : e.cs[i] \notin Special
\* a file can not be a folder
ProperTogether(es) == /\ \A e \in es : Proper(e)
                      /\ \A e, f \in es : e # f => ~Within(e.cs, f.cs)

(***************************************************************************)
(* The file system                                                         *)
(***************************************************************************)
Links(fs, p) == {k \in DOMAIN p : SubSeq(p, 1, k) \in DOMAIN fs /\ fs[SubSeq(p, 1, k)].kind = "link"}
Nowhere == <<"nowhere">>
\* all links followed (a limited number of them)
RECURSIVE Real(_, _, _)
Real(fs, p, n) == IF Links(fs, p) = {} THEN p
                  ELSE IF n = 0 THEN Nowhere
                  ELSE LET k == Least(Links(fs, p)) IN Real(fs, fs[SubSeq(p, 1, k)].to \o SubSeq(p, k + 1, Len(p)), n - 1)
MaxLinks == 4
At(fs, p) == Real(fs, p, MaxLinks)
\* the last name is not followed
There(fs, p) == Append(At(fs, Front1(p)), End(p))
IsDir(fs, p) == At(fs, p) \in DOMAIN fs /\ fs[At(fs, p)].kind = "dir"
IsLink(fs, p) == There(fs, p) \in DOMAIN fs /\ fs[There(fs, p)].kind = "link"
Exists(fs, p) == At(fs, p) \in DOMAIN fs
Put(fs, p, node) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN node ELSE fs[q]]
Drop(fs, p) == [q \in DOMAIN fs \ {p} |-> fs[q]]
Free(fs, p) == IsDir(fs, Front1(p)) /\ fs[At(fs, Front1(p))].w
File(c) == [kind |-> "file", w |-> TRUE, c |-> c, to |-> <<>>]
Dir == [kind |-> "dir", w |-> TRUE, c |-> 0, to |-> <<>>]
Link(to) == [kind |-> "link", w |-> TRUE, c |-> 0, to |-> to]

\* system calls; failing ones change nothing
Able(fs, c) ==
    CASE c.call = "mkdir" -> Free(fs, c.p) /\ There(fs, c.p) \notin DOMAIN fs
      [] c.call = "write" -> IF Exists(fs, c.p) THEN fs[At(fs, c.p)].kind = "file" /\ fs[At(fs, c.p)].w ELSE Free(fs, At(fs, c.p))
      [] c.call = "chmod" -> Exists(fs, c.p)
      [] c.call = "unlink" -> Free(fs, c.p) /\ There(fs, c.p) \in DOMAIN fs /\ fs[There(fs, c.p)].kind # "dir"
      [] c.call = "rmdir" -> /\ Free(fs, c.p) /\ There(fs, c.p) \in DOMAIN fs /\ fs[There(fs, c.p)].kind = "dir"
                             /\ \A q \in DOMAIN fs : Within(q, There(fs, c.p)) => q = There(fs, c.p)
      [] c.call = "rename" -> LET a == There(fs, c.p) b == There(fs, c.q)
                              IN /\ Free(fs, c.p) /\ Free(fs, c.q) /\ a \in DOMAIN fs
                                 /\ fs[a].kind = "dir" => fs[a].w
                                 /\ b \in DOMAIN fs => \/ fs[a].kind # "dir" /\ fs[b].kind # "dir"
                                                       \/ fs[a].kind = "dir" /\ fs[b].kind = "dir" /\ \A q \in DOMAIN fs : Within(q, b) => q = b
Effect(fs, c) ==
    CASE c.call = "mkdir" -> Put(fs, There(fs, c.p), Dir)
      [] c.call = "write" -> Put(fs, At(fs, c.p), [File(c.c) EXCEPT !.w = IF Exists(fs, c.p) THEN fs[At(fs, c.p)].w ELSE TRUE])
      [] c.call = "chmod" -> [fs EXCEPT ![At(fs, c.p)].w = c.w]
      [] c.call \in {"unlink", "rmdir"} -> Drop(fs, There(fs, c.p))
      [] c.call = "rename" -> LET a == There(fs, c.p) b == There(fs, c.q)
                                  moved == {q \in DOMAIN fs : Within(q, a)}
                                  new(q) == b \o SubSeq(q, Len(a) + 1, Len(q))
                              IN [x \in ((DOMAIN fs \ moved) \cup {new(q) : q \in moved}) |->
                                      IF Within(x, b) THEN fs[a \o SubSeq(x, Len(b) + 1, Len(x))] ELSE fs[x]]
Changed(a, b) == {p \in DOMAIN a \cup DOMAIN b : p \notin DOMAIN a \/ p \notin DOMAIN b \/ a[p] # b[p]}
=============================================================================
