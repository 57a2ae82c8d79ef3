----------------------------- MODULE TraceOrder -----------------------------
(* Judges recorded comparisons of entry kinds against Order. Record:          *)
(* [id, kinds, m]: m[i][j] = [sign of the comparison, equality, whether all   *)
(* other comparisons of the two agree]; a crash has an empty m. If sorted is  *)
(* TRUE the kinds are given as they appear in an index.                       *)
EXTENDS Order, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
Judge(r) ==
    LET n == Len(r.kinds) IN
    IF Len(r.m) # n THEN {"crash"}
    ELSE LET c(i, j) == Cmp(r.kinds[i], r.kinds[j])
             bad == {<<i, j>> \in (1..n) \X (1..n) : r.m[i][j][1] # c(i, j)}
         IN  (IF bad # {} THEN {"order"} ELSE {})
             \cup (IF \E i, j \in 1..n : r.m[i][j][2] # (r.kinds[i] = r.kinds[j]) THEN {"equality"} ELSE {})
             \cup (IF \E i, j \in 1..n : ~r.m[i][j][3] THEN {"consistency"} ELSE {})
             \cup (IF r.sorted /\ \E i \in 1..n - 1 : r.m[i][i + 1][1] # -1 THEN {"index"} ELSE {})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET v == Judge(Recs[l + 1]) IN
          IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Recs[l + 1].id, labels |-> v]))
       /\ seen' = seen + Len(Recs[l + 1].kinds) * Len(Recs[l + 1].kinds)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, pairs |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
