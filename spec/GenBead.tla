------------------------------ MODULE GenBead ------------------------------
(***************************************************************************)
(* Behaviours of BeadSystem, for replaying them in the real tool.          *)
(* Run with -simulate; prints <<"@@B", registry, commands>>.               *)
(***************************************************************************)
EXTENDS MCBead
CONSTANTS Depth, Reluctance
VARIABLE log

Brief(c) == <<c.op, c.ws, c.nick, c.ref, c.t, c.off, c.box, c.loc, c.sel, c.review, c.newf, c.now>>
\* commands that would be refused are chosen less often
Chosen(op) == LET cs == CmdsOf(op)
                  good == {c \in cs : \E o \in Outcomes(s, c) : o.s # s}
              IN IF cs = {} THEN {}
                 ELSE IF good # {} /\ RandomElement(1..Reluctance) # 1 THEN {RandomElement(good)} ELSE {RandomElement(cs)}
GNext ==
    LET op == RandomElement(Ops)
    IN /\ \/ \E c \in Chosen(op) : Command(c)
          \/ op = "produce" /\ \E w \in {RandomElement(Wss)} : Produce(w)
          \/ op = "remove" /\ \E l \in Locs : s.box[l].files # {} /\ \E x \in {RandomElement(s.box[l].files)} : Remove(l, x)
          \/ op = "copy" /\ \E l, m \in Locs : s.box[m].ex /\ s.box[l].files # {}
                                             /\ \E x \in {RandomElement(s.box[l].files)} : Copy(l, x, m)
          \/ op = "damage" /\ \E l \in Locs : s.box[l].files # {} /\ \E x \in {RandomElement(s.box[l].files)} : Damage(l, x)
          \/ UNCHANGED vars
       /\ log' = IF UNCHANGED s /\ hist' = hist THEN log ELSE Append(log, Brief(hist'.cmd))
GInit == Init /\ log = <<>>
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == TLCGet("level") = Depth =>
            PrintT(<<"@@B", [i \in DOMAIN InitReg |-> <<InitReg[i].name, InitReg[i].loc>>], log>>)
=============================================================================
