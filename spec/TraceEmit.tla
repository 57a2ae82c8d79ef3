------------------------------ MODULE TraceEmit ------------------------------
(* Judges recorded uses of the emitter. Record:                               *)
(* [id, kind |-> "cmds", ht, bs, cmds, res, hdr, rows, foot, term, bd]        *)
(* [id, kind |-> "re", idx, out, res]: parsed and emitted again               *)
EXTENDS Emit, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
Cmds(r) ==
    (IF r.hdr # HeaderToks(r.ht, r.bs) THEN {"header"} ELSE {})
    \cup (IF r.rows # RowsOf(r.cmds) THEN {"rows"} ELSE {})
    \cup (IF r.foot # <<r.bd>> \/ Len(r.bd) # DigestChars THEN {"footer"} ELSE {})
    \cup (IF ~r.term THEN {"end"} ELSE {})
Judge(r) ==
    IF r.res[1] \notin {"ok", "e"} THEN {"crash"}
    ELSE IF r.res[1] = "e" THEN {"failed"}
    ELSE IF r.kind = "re" THEN (IF r.out # r.idx THEN {"reproduce"} ELSE {})
    ELSE Cmds(r)

VARIABLES l
Init == l = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET v == Judge(Recs[l + 1]) IN
          IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Recs[l + 1].id, labels |-> v]))
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
