----------------------------- MODULE GenArchive -----------------------------
(***************************************************************************)
(* Tampered archives to be made for real (with -simulate).                 *)
(***************************************************************************)
EXTENDS MCArchive
GNext == Tamper
GSpec == Init /\ [][GNext]_vars
Emit == n \in 1..MaxTamper =>
            PrintT(<<"@@B", n, <<a.zip, a.named, a.meta, a.manok, a.man, {<<f.n, f.h>> : f \in a.files}, 0>>>>)
=============================================================================
