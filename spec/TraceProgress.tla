---------------------------- MODULE TraceProgress ----------------------------
(* Judges what was told of recorded scans against Progress. Record:           *)
(* [id, hash, roots, res, out, asked, lines, hex, good, ms, steady]: asked:   *)
(* progress was asked for; lines: [done, n] read from standard error; hex:    *)
(* the digest told at the end; good: what is printed there arrives; steady:   *)
(* the scan went on all the time it took (ms); mustfail: it meets a failure.  *)
EXTENDS Tree, Progress, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
StartsWith(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
KindsOf(es) == [i \in 1..Len(es) |-> IF es[i].k = "d" THEN "d" ELSE es[i].node.t]

Judge(r) ==
    LET es == TLCEval(Entries(r.roots))
        ks == TLCEval(KindsOf(es))
        text == LineStr(HeaderToks(r.hash, "32768")) \o "\n" \o BodyStr(es)
        ok == r.res[1] = "ok"
    IN  IF r.res[1] \notin {"ok", "e"} THEN {"crash"}
        ELSE (IF r.mustfail = ok THEN {"result"} ELSE {})
             \cup (IF ok /\ (~StartsWith(text, r.out) \/ Len(r.out) # Len(text) + 65) THEN {"index"} ELSE {})
             \cup (IF ~ok /\ ~StartsWith(r.out, text) /\ ~StartsWith(text, r.out) THEN {"index"} ELSE {})
             \cup (IF ~Truthful(r.lines, ks) THEN {"untrue"} ELSE {})
             \cup (IF ~Forward(r.lines) THEN {"backward"} ELSE {})
             \cup (IF ~r.good THEN {}
                   ELSE IF r.asked THEN (IF ~EndToldWell(r.lines, ok) THEN {"end"} ELSE {})
                   ELSE IF r.lines # <<>> THEN {"unasked"} ELSE {})
             \cup (IF r.hex # "" /\ ok /\ ~(Len(r.hex) >= 8 /\ StartsWith(r.hex, SubSeq(r.out, Len(text) + 1, Len(r.out)))) THEN {"digest"} ELSE {})
             \cup (IF r.good /\ r.asked /\ r.steady /\ ok /\ r.ms > 1500 /\ Len(r.lines) < 2 THEN {"mute"} ELSE {})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET v == Judge(Recs[l + 1]) IN
          IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Recs[l + 1].id, labels |-> v]))
       /\ seen' = seen + Len(Recs[l + 1].lines)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, lines |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
