------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* Archives: when one is intact, and what its content id stands for.       *)
(*                                                                         *)
(* a.zip      it is readable as a zip file                                 *)
(* a.named    a bead name can be read from its file name                   *)
(* a.metaok   metadata is readable, complete and well formed               *)
(* a.meta     frozen metadata: kind, name, freeze time, inputs             *)
(* a.future   freeze time is in the future                                 *)
(* a.manok    there is a readable manifest                                 *)
(* a.man      set of <<entry, hash>>, what should be there                 *)
(* a.files    set of [n, area, h]: entries below data, code, and the rest; *)
(*            the hash of unreadable ones is different from all others     *)
(* a.escape   there are entries pointing outside of data or code           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MetaEntry == "meta/bead"
Content(a) == {x \in a.files : x.area \in {"data", "code"}}
ManNames(a) == {m[1] : m \in a.man}
Changed(a) == \E m \in a.man : ~\E x \in a.files : x.n = m[1] /\ x.h = m[2]
Added(a) == \E x \in Content(a) : x.n \notin ManNames(a)
Valid(a) == /\ a.zip /\ a.named /\ a.metaok /\ ~a.future /\ a.manok /\ ~a.escape
            /\ MetaEntry \in ManNames(a)
            /\ ~Changed(a)
            /\ ~Added(a)
\* what a content id has to identify
Frozen(a) == [files |-> {<<x.n, x.h>> : x \in Content(a)}, meta |-> a.meta]
=============================================================================
