------------------------------ MODULE TraceSink ------------------------------
(* Judges recorded scans and emissions into troublesome outputs. Record:      *)
(* [id, whole, runs]: the index as written to a plain output, and runs        *)
(* [out, res, fired]; fired: a write was refused.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
IsPrefixStr(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

JudgeRun(whole, r) ==
    (IF r.res[1] \notin {"ok", "e"} THEN {"crash"}
     ELSE IF r.fired
     THEN (IF r.res[1] = "ok" THEN {"success"} ELSE IF r.res[2] # "Write" THEN {"category"} ELSE {})
     ELSE (IF r.res[1] # "ok" THEN {"failure"} ELSE IF r.out # whole THEN {"bytes"} ELSE {}))
    \cup (IF IsPrefixStr(r.out, whole) THEN {} ELSE {"prefix"})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1] IN
          /\ \A k \in 1..Len(rec.runs) :
               LET v == JudgeRun(rec.whole, rec.runs[k])
               IN  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> rec.id, run |-> k, labels |-> v]))
          /\ seen' = seen + Len(rec.runs)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, runs |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
