----------------------------- MODULE TraceRound -----------------------------
(* Judges scan-then-parse round trips: what parsing the index of a tree gives *)
(* against the tree itself. Record:                                           *)
(* [id, ht, bs, ov, mode, open, res, checks]: res are the results of next, up *)
(* to three after the last entry; checks[n] is what checking the content of   *)
(* the n-th regular file against the parsed digests gave.                     *)
EXTENDS Tree, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

\* an entry of the tree against an observation (see Obs); K1: digests as the known deviation has them
Same(e, ob, rec, digs) ==
    /\ ob.k \in {"d", "f", "l"} /\ ob.abs /\ ob.p = e.p
    /\ CASE e.k = "d" -> ob.k = "d"
         [] e.k = "f" /\ e.node.t = "s" -> ob.k = "l" /\ ob.l = e.node.l
         [] OTHER -> ob.k = "f" /\ ob.x = e.node.x /\ ob.sz = e.node.sz /\ ob.h = digs /\ ob.ok
                     /\ ob.ht = rec.ht /\ ob.bs = rec.bs
Own(e) == IF e.k = "f" /\ e.node.t = "f" THEN e.node.h ELSE <<>>
Dev(e, rec) == IF e.k = "f" /\ e.node.t = "f" /\ rec.ht = "blake3/256" THEN (IF rec.mode = "pool" THEN e.node.dp ELSE e.node.ds) ELSE Own(e)

Judge(rec) ==
    LET E == Entries(rec.ov)
        n == Len(E)
        files == SelectSeq(E, LAMBDA e : e.k = "f" /\ e.node.t = "f")
        deviates(e) == Dev(e, rec) # Own(e)
        crash == \E i \in 1..Len(rec.res) : rec.res[i].k \notin {"d", "f", "l", "e", "none"}
    IN  IF crash \/ rec.open[1] \notin {"ok", "e"} THEN {"crash"}
        ELSE IF rec.open # <<"ok", "v1", rec.ht, rec.bs>> THEN {"header"}
        ELSE (IF Len(rec.res) < n \/ \E i \in 1..n : rec.res[i].k \in {"none", "e"} THEN {"missing"}
              ELSE IF \A i \in 1..n : Same(E[i], rec.res[i], rec, Own(E[i])) THEN {}
              ELSE IF \A i \in 1..n : Same(E[i], rec.res[i], rec, Dev(E[i], rec)) THEN {"K1"}
              ELSE {"value"})
             \cup (IF Len(rec.res) >= n /\ (Len(rec.res) = n \/ \E i \in n + 1..Len(rec.res) : rec.res[i].k # "none") THEN {"end"} ELSE {})
             \cup (IF Len(rec.checks) # Len(files) THEN {"check"}
                   ELSE {IF rec.ht = "blake3/256" /\ deviates(files[i]) /\ rec.checks[i] = "false" THEN "K1" ELSE "check"
                         : i \in {j \in 1..Len(files) : rec.checks[j] # "true"}})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET v == Judge(Recs[l + 1]) IN
          IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Recs[l + 1].id, labels |-> v]))
       /\ seen' = seen + Len(Recs[l + 1].res)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, results |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
