------------------------------- MODULE Saving -------------------------------
(***************************************************************************)
(* A save in the steps it takes on the workspace, while others change the  *)
(* files being saved.  The save lists the files, then opens them one after *)
(* the other and reads them block by block; what it has read goes into the *)
(* archive and into the manifest.                                          *)
(*                                                                         *)
(* An open file stays what it was when others replace or remove it, but    *)
(* not when they write into it.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Blocks, MaxLen,
          Changes,              \* how many changes others make
          ReadTwice,            \* once for the archive, once more for the manifest
          CleanUp               \* a failed save removes what it has written
None == 0

VARIABLES at,           \* name -> file (None: there is no such file)
          file,         \* file -> its blocks
          past,         \* name -> what it was since the save began: [texts, absent, torn, files]
          pc, todo, cur, held, pos, buf,
          arc, man,     \* name -> blocks, for names archived
          box,          \* "nothing", "partial" or "whole" at the place of the archive
          left          \* changes to come
vars == <<at, file, past, pc, todo, cur, held, pos, buf, arc, man, box, left>>

Texts == UNION {[1..k -> Blocks] : k \in 0..MaxLen}

\* ---------------------------------------------------------------- what a save may give
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* blocks read one after the other from a file with this past
Mixture(text, texts) ==
    /\ Len(text) \in Min({Len(v) : v \in texts})..Max({Len(v) : v \in texts})
    /\ \A k \in DOMAIN text : \E v \in texts : k <= Len(v) /\ v[k] = text[k]
\* h: [texts: what it was, absent: was there a time without it, torn: was it written into]
Readable(text, h) == IF h.torn THEN Mixture(text, h.texts) ELSE text \in h.texts
\* archived: the names in the archive, with text
WrongTexts(hs, ns, archived(_)) == {n \in ns : ~Readable(archived(n), hs[n])}
Lost(hs, ns) == {n \in DOMAIN hs : ~hs[n].absent /\ n \notin ns}

\* ---------------------------------------------------------------- the save
Keep(vs) == UNCHANGED vs
List == /\ pc = "list"
        /\ todo' = {n \in Names : at[n] # None}
        /\ box' = "partial"
        /\ pc' = "next"
        /\ UNCHANGED <<at, file, past, cur, held, pos, buf, arc, man, left>>
Pick == /\ pc = "next" /\ todo # {}
        /\ \E n \in todo : cur' = n /\ todo' = todo \ {n}
        /\ pc' = "open"
        /\ UNCHANGED <<at, file, past, held, pos, buf, arc, man, box, left>>
Open(step) == /\ pc = step
              /\ IF at[cur] = None THEN pc' = "undo" /\ UNCHANGED <<held, pos, buf>>
                 ELSE held' = at[cur] /\ pos' = 1 /\ buf' = <<>> /\ pc' = IF step = "open" THEN "read" ELSE "hash"
              /\ UNCHANGED <<at, file, past, todo, cur, arc, man, box, left>>
Read == /\ pc \in {"read", "hash"} /\ pos <= Len(file[held])
        /\ buf' = Append(buf, file[held][pos])
        /\ pos' = pos + 1
        /\ UNCHANGED <<at, file, past, pc, todo, cur, held, arc, man, box, left>>
With(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
End == /\ pc \in {"read", "hash"} /\ pos > Len(file[held])
       /\ arc' = IF pc = "read" THEN With(arc, cur, buf) ELSE arc
       /\ man' = IF pc = "hash" \/ ~ReadTwice THEN With(man, cur, buf) ELSE man
       /\ pc' = IF pc = "read" /\ ReadTwice THEN "open again" ELSE "next"
       /\ UNCHANGED <<at, file, past, todo, cur, held, pos, buf, box, left>>
Finish == /\ pc = "next" /\ todo = {}
          /\ box' = "whole" /\ pc' = "ok"
          /\ UNCHANGED <<at, file, past, todo, cur, held, pos, buf, arc, man, left>>
Undo == /\ pc = "undo"
        /\ box' = IF CleanUp THEN "nothing" ELSE box
        /\ pc' = "err"
        /\ UNCHANGED <<at, file, past, todo, cur, held, pos, buf, arc, man, left>>

\* ---------------------------------------------------------------- the others
Was(h, text, torn) == [h EXCEPT !.texts = @ \cup {text}, !.torn = @ \/ torn]
Others == left > 0 /\ left' = left - 1 /\ pc \notin {"ok", "err"} /\ UNCHANGED <<pc, todo, cur, held, pos, buf, arc, man, box>>
\* another file gets the name
Replace(n, text) == /\ file' = Append(file, text)
                    /\ at' = [at EXCEPT ![n] = Len(file) + 1]
                    /\ past' = [past EXCEPT ![n] = [Was(@, text, FALSE) EXCEPT !.files = @ \cup {Len(file) + 1}]]
\* written into: everything changes, or something is appended
Write(n, text) == /\ at[n] # None
                  /\ file' = [file EXCEPT ![at[n]] = text]
                  /\ past' = [m \in Names |-> IF at[n] \in past[m].files THEN Was(past[m], text, TRUE) ELSE past[m]]
                  /\ at' = at
Remove(n) == /\ at[n] # None
             /\ at' = [at EXCEPT ![n] = None]
             /\ past' = [past EXCEPT ![n].absent = TRUE]
             /\ file' = file
\* a file gets another name; who has it open may see it change later under its new name
Rename(n, m) == /\ at[n] # None /\ at[m] = None
                /\ at' = [at EXCEPT ![n] = None, ![m] = at[n]]
                /\ past' = [past EXCEPT ![n].absent = TRUE, ![m] = [Was(@, file[at[n]], FALSE) EXCEPT !.files = @ \cup {at[n]}]]
                /\ file' = file
Change == Others /\ \E n \in Names : Remove(n) \/ (\E m \in Names : Rename(n, m)) \/ (\E x \in Texts : Replace(n, x) \/ Write(n, x))

Init == /\ \E there \in [Names -> Texts \cup {<<None>>}] :
              LET is(n) == there[n] # <<None>>
                  ord == CHOOSE q \in [1..Cardinality(Names) -> Names] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
                  nr(n) == CHOOSE i \in DOMAIN ord : ord[i] = n
              IN /\ at = [n \in Names |-> IF is(n) THEN nr(n) ELSE None]
                 /\ file = [i \in DOMAIN ord |-> IF is(ord[i]) THEN there[ord[i]] ELSE <<>>]
                 /\ past = [n \in Names |-> [texts |-> IF is(n) THEN {there[n]} ELSE {}, absent |-> ~is(n), torn |-> FALSE, files |-> IF is(n) THEN {nr(n)} ELSE {}]]
        /\ pc = "list" /\ todo = {} /\ cur \in {CHOOSE n \in Names : TRUE} /\ held = 1 /\ pos = 1 /\ buf = <<>>
        /\ arc = <<>> /\ man = <<>> /\ box = "nothing" /\ left = Changes
Next == List \/ Pick \/ Open("open") \/ Open("open again") \/ Read \/ End \/ Finish \/ Undo \/ Change
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Agrees == box = "whole" => arc = man                                            \* accepted by verification
Complete == box = "whole" => Lost(past, DOMAIN arc) = {}
Faithful == box = "whole" => WrongTexts(past, DOMAIN arc, LAMBDA n : arc[n]) = {}
AllOrNothing == (pc = "ok" => box = "whole") /\ (pc = "err" => box = "nothing")
\* failing is for files which went away
Excused == pc = "err" => \E n \in Names : past[n].absent
=============================================================================
