------------------------------ MODULE BoxConc ------------------------------
(***************************************************************************)
(* Processes saving into, indexing and reindexing one box, in the steps    *)
(* they take on the shared directory: archives, the index file and its     *)
(* rollback journal.                                                       *)
(*                                                                         *)
(* The index file is a name for a database (inode): a process may be       *)
(* connected to a database which was removed meanwhile.  The journal is    *)
(* found by name only: a journal of a removed database is taken for the    *)
(* journal of the new one.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Saves, Syncs, Rebuilds,       \* processes
          Old,                          \* archives which were there before
          EnsureFirst,                  \* reindex makes a new index before looking for archives
          Recheck,                      \* save looks for an index after the archive is there
          InPlace,                      \* reindex empties the index instead of removing it
          Mortal                        \* those of Saves which may be killed

Procs == Saves \cup Syncs \cup Rebuilds
Archives == Old \cup Saves
None == 0
NoJournal == [owner |-> None, old |-> {}]

VARIABLES arch,         \* archive -> "none", "partial", "full"
          path,         \* the database at the name of the index
          idx,          \* database -> archives in it
          journal,      \* whose journal is there, and what it brings back
          lock,         \* database -> process changing it
          pc, conn,     \* process -> step, database connected to
          cur, todo, gone, result,
          act           \* last step, for replaying
vars == <<arch, path, idx, journal, lock, pc, conn, cur, todo, gone, result, act>>
Databases == 1..Len(idx)

\* ---------------------------------------------------------------- the index file
\* open for writing: there is a database (with empty tables) afterwards.  A journal of others is removed if the database is empty
Opened == IF path = None THEN /\ path' = Len(idx) + 1
                              /\ idx' = Append(idx, {})
                              /\ lock' = Append(lock, None)
                              /\ journal' = NoJournal
          ELSE UNCHANGED <<path, idx, lock, journal>>
\* what is in a database, when it is read while nobody is changing it: a journal found is played back, be it its own or not
Hot(d) == journal.owner # None /\ lock[d] = None
Recovered(d) == IF Hot(d) THEN journal.old ELSE idx[d]

Step(p, a, next) == pc' = [pc EXCEPT ![p] = next] /\ act' = <<p, a>>
Same(vs) == UNCHANGED vs

\* ---------------------------------------------------------------- putting an archive into the index, in steps
Open(p, next) == /\ Opened
                 /\ conn' = [conn EXCEPT ![p] = path']
                 /\ Step(p, "open", next)
                 /\ UNCHANGED <<arch, cur, todo, gone, result>>
\* sqlite refuses to write, if the database is not there any more
Begin(p, next, failed) ==
    LET d == conn[p]
    IN /\ lock[d] = None
       /\ IF path # d THEN Step(p, "begin", failed) /\ UNCHANGED <<idx, journal, lock>>
          ELSE /\ lock' = [lock EXCEPT ![d] = p]
               /\ idx' = [idx EXCEPT ![d] = Recovered(d)]
               /\ journal' = IF Hot(d) THEN NoJournal ELSE journal
               /\ Step(p, "begin", next)
       /\ UNCHANGED <<arch, path, conn, cur, todo, gone, result>>
Journal(p, next) == /\ journal' = [owner |-> conn[p], old |-> idx[conn[p]]]
                    /\ Step(p, "journal", next)
                    /\ UNCHANGED <<arch, path, idx, lock, conn, cur, todo, gone, result>>
Commit(p, change(_), next) ==
    /\ idx' = [idx EXCEPT ![conn[p]] = change(@)]
    /\ lock' = [lock EXCEPT ![conn[p]] = None]
    /\ journal' = NoJournal
    /\ Step(p, "commit", next)
    /\ UNCHANGED <<arch, path, conn, result>>

\* ---------------------------------------------------------------- save
SaveCreate(p) == /\ pc[p] = "create"
                 /\ arch' = [arch EXCEPT ![p] = "partial"]
                 /\ Step(p, "create", IF Recheck THEN "finish" ELSE "check")
                 /\ UNCHANGED <<path, idx, journal, lock, conn, cur, todo, gone, result>>
SaveFinish(p) == /\ pc[p] = "finish"
                 /\ arch' = [arch EXCEPT ![p] = "full"]
                 /\ Step(p, "finish", IF Recheck THEN "check" ELSE IF cur[p] = p THEN "ensure" ELSE "done")
                 /\ result' = [result EXCEPT ![p] = "ok"]
                 /\ UNCHANGED <<path, idx, journal, lock, conn, cur, todo, gone>>
\* is the box indexed?
SaveCheck(p) == /\ pc[p] = "check"
                /\ cur' = [cur EXCEPT ![p] = IF path = None THEN None ELSE p]
                /\ Step(p, "check", IF Recheck THEN (IF path = None THEN "done" ELSE "ensure") ELSE "finish")
                /\ UNCHANGED <<arch, path, idx, journal, lock, conn, todo, gone, result>>
SaveEnsure(p) == pc[p] = "ensure" /\ Open(p, "open")
SaveOpen(p) == pc[p] = "open" /\ Open(p, "begin")
SaveBegin(p) == pc[p] = "begin" /\ Begin(p, "journal", "done")
SaveJournal(p) == pc[p] = "journal" /\ Journal(p, "commit")
SaveCommit(p) == pc[p] = "commit" /\ Commit(p, LAMBDA s : s \cup {p}, "done") /\ UNCHANGED <<cur, todo, gone>>
Save(p) == SaveCreate(p) \/ SaveFinish(p) \/ SaveCheck(p) \/ SaveEnsure(p) \/ SaveOpen(p) \/ SaveBegin(p) \/ SaveJournal(p) \/ SaveCommit(p)

\* ---------------------------------------------------------------- index (sync) and reindex (rebuild)
Present == {a \in Archives : arch[a] # "none"}
Ensure(p) == /\ pc[p] = "ensure"
             /\ Open(p, IF p \in Syncs THEN "query" ELSE "exists")
Query(p) == /\ pc[p] = "query"
            /\ IF path = None THEN /\ Step(p, "query", "done")                  \* nothing to be read: gives up
                                   /\ result' = [result EXCEPT ![p] = "gave up"]
                                   /\ UNCHANGED <<idx, journal, todo, gone>>
               ELSE /\ todo' = [todo EXCEPT ![p] = Recovered(path)]
                    /\ Step(p, "query", "scan")
                    /\ UNCHANGED <<idx, journal, gone, result>>
            /\ UNCHANGED <<arch, path, lock, conn, cur>>
Exists(p) == /\ pc[p] = "exists"
             /\ Step(p, "exists", IF path = None THEN "again" ELSE IF InPlace THEN "reopen" ELSE "unlink")
             /\ UNCHANGED <<arch, path, idx, journal, lock, conn, cur, todo, gone, result>>
Unlink(p) == /\ pc[p] = "unlink"
             /\ IF path = None THEN /\ Step(p, "unlink", "done")                \* nothing to remove: fails
                                    /\ result' = [result EXCEPT ![p] = "failed"]
                                    /\ UNCHANGED path
                ELSE /\ path' = None
                     /\ Step(p, "unlink", IF EnsureFirst THEN "again" ELSE "scan")
                     /\ UNCHANGED result
             /\ UNCHANGED <<arch, idx, journal, lock, conn, cur, todo, gone>>
\* emptying the index in a transaction
ClearOpen(p) == pc[p] = "reopen" /\ Open(p, "empty")
ClearBegin(p) == pc[p] = "empty" /\ Begin(p, "saveold", "again")
ClearJournal(p) == pc[p] = "saveold" /\ Journal(p, "emptied")
ClearCommit(p) == pc[p] = "emptied" /\ Commit(p, LAMBDA s : {}, "again") /\ UNCHANGED <<cur, todo, gone>>
EnsureAgain(p) == pc[p] = "again" /\ Open(p, IF EnsureFirst THEN "scan" ELSE "done")
Scan(p) == /\ pc[p] = "scan"
           /\ todo' = [todo EXCEPT ![p] = IF p \in Syncs THEN Present \ @ ELSE Present]
           /\ gone' = [gone EXCEPT ![p] = IF p \in Syncs THEN todo[p] \ Present ELSE {}]
           /\ Step(p, "scan", "each")
           /\ UNCHANGED <<arch, path, idx, journal, lock, conn, cur, result>>
\* archives which are not complete are skipped
Validate(p) == /\ pc[p] = "each"
               /\ IF todo[p] # {} THEN
                     \E a \in todo[p] : /\ todo' = [todo EXCEPT ![p] = @ \ {a}]
                                        /\ cur' = [cur EXCEPT ![p] = a]
                                        /\ Step(p, "validate", IF arch[a] = "full" THEN "open" ELSE "each")
                                        /\ UNCHANGED <<result, gone>>
                  ELSE IF gone[p] # {} THEN /\ Step(p, "validate", "open")
                                            /\ cur' = [cur EXCEPT ![p] = None]
                                            /\ UNCHANGED <<todo, gone, result>>
                  ELSE /\ Step(p, "validate", "done")
                       /\ result' = [result EXCEPT ![p] = "ok"]
                       /\ UNCHANGED <<todo, gone, cur>>
               /\ UNCHANGED <<arch, path, idx, journal, lock, conn>>
EachOpen(p) == pc[p] = "open" /\ Open(p, "begin")
EachBegin(p) == pc[p] = "begin" /\ Begin(p, "journal", IF cur[p] = None THEN "ignored" ELSE "each")
EachJournal(p) == pc[p] = "journal" /\ Journal(p, "commit")
EachCommit(p) == /\ pc[p] = "commit"
                 /\ IF cur[p] = None THEN /\ Commit(p, LAMBDA s : s \ gone[p], "each")
                                          /\ gone' = [gone EXCEPT ![p] = {}]
                                          /\ UNCHANGED <<cur, todo>>
                    ELSE Commit(p, LAMBDA s : s \cup {cur[p]}, "each") /\ UNCHANGED <<cur, todo, gone>>
Ignored(p) == /\ pc[p] = "ignored"
              /\ gone' = [gone EXCEPT ![p] = {}]
              /\ Step(p, "ignored", "each")
              /\ UNCHANGED <<arch, path, idx, journal, lock, conn, cur, todo, result>>
Index(p) == Ensure(p) \/ Query(p) \/ Exists(p) \/ Unlink(p) \/ ClearOpen(p) \/ ClearBegin(p) \/ ClearJournal(p) \/ ClearCommit(p) \/ EnsureAgain(p) \/ Scan(p) \/ Validate(p)
            \/ EachOpen(p) \/ EachBegin(p) \/ EachJournal(p) \/ EachCommit(p) \/ Ignored(p)

\* ---------------------------------------------------------------- processes may be killed
\* an archive half written and a journal may be left there; what it wrote into the index up to now is there as well
Kill(p) == /\ pc[p] \notin {"create", "done"}
           /\ lock' = [d \in DOMAIN lock |-> IF lock[d] = p THEN None ELSE lock[d]]
           /\ \E written \in {FALSE, TRUE} :
                 /\ written => pc[p] = "commit"
                 /\ idx' = IF written THEN [idx EXCEPT ![conn[p]] = {}] ELSE idx        \* (unusable without its journal)
           /\ result' = [result EXCEPT ![p] = "killed"]
           /\ Step(p, "kill", "done")
           /\ UNCHANGED <<arch, path, journal, conn, cur, todo, gone>>

\* ----------------------------------------------------------------
InitIndex(d, content) ==
    /\ path = d
    /\ idx = IF d = None THEN <<>> ELSE <<content>>
    /\ lock = IF d = None THEN <<>> ELSE <<None>>
Init0 == /\ arch = [a \in Archives |-> IF a \in Old THEN "full" ELSE "none"]
         /\ journal = NoJournal
         /\ pc = [p \in Procs |-> IF p \in Saves THEN "create" ELSE "ensure"]
         /\ conn = [p \in Procs |-> None]
         /\ cur = [p \in Procs |-> None]
         /\ todo = [p \in Procs |-> {}]
         /\ gone = [p \in Procs |-> {}]
         /\ result = [p \in Procs |-> "none"]
         /\ act = <<None, "init">>
\* not indexed, or indexed, perhaps not quite up to date
Init == Init0 /\ \E d \in {None, 1}, content \in SUBSET Old : InitIndex(d, content) /\ (d = None => content = {})
Next == (\E p \in Saves : Save(p)) \/ (\E p \in Syncs \cup Rebuilds : Index(p)) \/ (\E p \in Mortal : Kill(p))
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what is to be guaranteed
Done == \A p \in Procs : pc[p] = "done"
Found(a) == path = None \/ a \in Recovered(path)
\* every bead whose save succeeded is found
NothingLost == Done => \A p \in Saves : result[p] = "ok" => Found(p)
\* what is found can be had
NothingMadeUp == Done /\ path # None => \A a \in Recovered(path) : arch[a] = "full"
\* bringing the index up to date brings it up to date, whatever else is going on
UpToDate == Done /\ (\E p \in Syncs \cup Rebuilds : result[p] = "ok") => \A a \in Old : Found(a)
\* somebody is not waiting forever
NoDeadlock == Done \/ ENABLED Next
=============================================================================
