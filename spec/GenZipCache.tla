----------------------------- MODULE GenZipCache -----------------------------
(***************************************************************************)
(* Sequences of reads, to be made for real (with -simulate).               *)
(***************************************************************************)
EXTENDS ZipCache, TLC
CONSTANT Length
VARIABLE log
GInit == Init /\ log = <<>>
\* mostly those used recently, or just closed
GNext == /\ Len(log) < Length
         /\ LET r == TLCEval(RandomElement(1..20))
                used == {f \in Files : last[f] > 0}
            IN IF r = 1 THEN CloseAll
               ELSE IF r < 8 /\ used # {} THEN Read(TLCEval(RandomElement(used)))
               ELSE IF r < 12 /\ Open # {} THEN Read(Least)
               ELSE Read(TLCEval(RandomElement(Files)))
         /\ log' = Append(log, act'[2])
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == Len(log) = Length => PrintT(<<"@@B", Len(log), log, 0>>)
=============================================================================
