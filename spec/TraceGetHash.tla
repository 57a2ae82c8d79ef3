---------------------------- MODULE TraceGetHash ----------------------------
(* Judges recorded readings of stored hashes against GetHash. Record:         *)
(* [id, lines, part, fired, res]; fired: reading or seeking failed.           *)
EXTENDS GetHash, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
Agree(a, res) == IF a.o = "err" THEN res[1] = "e" ELSE res = <<"ok", a.h>>
Judge(r) ==
    IF r.res[1] \notin {"ok", "e"} THEN {"crash"}
    ELSE IF r.fired THEN (IF r.res[1] = "e" THEN {} ELSE {"swallowed"})
    ELSE IF \E a \in Answers(r) : Agree(a, r.res) THEN {}
    ELSE IF r.res[1] = "e" THEN {"refused"}
    ELSE IF Answers(r) = {GErr} THEN {"accepted"} ELSE {"bytes"}

VARIABLES l
Init == l = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET r == Recs[l + 1]
              v == Judge(r) \cup (IF "peak" \in DOMAIN r /\ r.peak > r.limit THEN {"memory"} ELSE {})
          IN  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> r.id, labels |-> v]))
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
