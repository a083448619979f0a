---------------------------- MODULE SavingTrace ----------------------------
(***************************************************************************)
(* Judges saves during which the files being saved were changed.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == 1..Len(Data)
R(q) == {q[i] : i \in DOMAIN q}
Saving == INSTANCE Saving WITH Names <- {}, Blocks <- {}, MaxLen <- 0, Changes <- 0, ReadTwice <- FALSE, CleanUp <- TRUE,
                               at <- 0, file <- 0, past <- 0, pc <- 0, todo <- 0, cur <- 0, held <- 0, pos <- 0, buf <- 0, arc <- 0, man <- 0, box <- 0, left <- 0
\* a case: [status, changed: was there any change, past: [n, texts, absent, torn], new: new archives [ok, name, kind, files: [n, text]], gone: archives gone or changed,
\*          same: everything else in the boxes is as it was]
Files(c) == {x.n : x \in R(c.past)}
Past(c) == [n \in Files(c) |-> LET x == CHOOSE x \in R(c.past) : x.n = n IN [texts |-> R(x.texts), absent |-> x.absent, torn |-> x.torn]]
Good(c, a) ==
    LET ns == {x.n : x \in R(a.files)}
        text(n) == (CHOOSE x \in R(a.files) : x.n = n).text
        hs == Past(c)
    IN (IF a.ok THEN {} ELSE {"save:invalid"})
       \cup (IF a.meta THEN {} ELSE {"save:meta"})
       \cup (IF Len(a.files) = Cardinality(ns) THEN {} ELSE {"save:twice"})
       \cup (IF ns \subseteq Files(c) THEN {} ELSE {"save:invented"})
       \cup (IF Saving!Lost(hs, ns) = {} THEN {} ELSE {"save:lost"})
       \cup (IF Saving!WrongTexts(hs, ns \cap Files(c), text) = {} THEN {} ELSE {"save:text"})
Clauses(c) ==
    (IF c.gone = <<>> /\ c.same THEN {} ELSE {"box:changed"})
    \cup (CASE c.status = "ok" -> IF Len(c.new) # 1 THEN {"save:count"} ELSE Good(c, c.new[1])
            [] c.status = "err" -> (IF c.new = <<>> THEN {} ELSE {"save:leftover"})
                                   \cup (IF c.changed THEN {} ELSE {"save:refused"})
            [] OTHER -> {"save:" \o c.status})
VARIABLES t
Verdict(tt) == LET v == Clauses(Data[tt]) IN IF v = {} THEN TRUE ELSE PrintT(<<"@@V", tt, 1, SetToSeq(v)>>)
Init == t \in Traces /\ Verdict(t)
Next == FALSE /\ t' = t
Spec == Init /\ [][Next]_t
Accepted == TLCGet("stats").distinct = Len(Data)
=============================================================================
