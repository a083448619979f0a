------------------------------- MODULE Kinds -------------------------------
(***************************************************************************)
(* Kinds: all that descends from a workspace has its kind, and nothing     *)
(* else.                                                                   *)
(*                                                                         *)
(* Things are workspaces and beads: [line: the creation it descends from,  *)
(* kind].                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Repeated(things) == \E a, b \in things : a.kind = b.kind /\ a.line # b.line
Changed(things) == \E a, b \in things : a.line = b.line /\ a.kind # b.kind
Tied(things) == ~Repeated(things) /\ ~Changed(things)
=============================================================================
