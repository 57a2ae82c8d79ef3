----------------------------- MODULE TraceConfig -----------------------------
(* Judges recorded scans with configurations against Config. Records:         *)
(* [id, kind |-> "calls", cmds, cpus, roots, scans]: scans[j] is what the j-th*)
(*   scan among cmds came to: [res, out, threads, err]; roots[hash]: trees;    *)
(* [id, kind |-> "work", cmds, cpus, files, opened, end]: a scan none of      *)
(*   whose files can be finished, and how many of them it took up.            *)
EXTENDS Tree, Config, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
IsPrefixStr(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Text(ht, ov) == LineStr(HeaderToks(ht, "32768")) \o "\n" \o BodyStr(Entries(ov))

Scans(r) == SelectSeq([i \in 1..Len(r.cmds) |-> i], LAMBDA i : r.cmds[i].c = "scan")
JudgeScan(r, j) ==
    LET cfg == TLCEval(After(SubSeq(r.cmds, 1, Scans(r)[j])))
        s == r.scans[j]
        text == Text(cfg.hash, [i \in 1..Len(cfg.dirs) |-> r.roots[cfg.hash][cfg.dirs[i]]])
    IN  (IF s.res[1] \notin {"ok", "e"} THEN {"crash"}
         ELSE IF cfg.dirs = <<>> THEN (IF s.res = <<"e", "NoRoot">> THEN {} ELSE {"root"})
         ELSE IF s.res[1] # "ok" THEN {"failed"}
         ELSE IF ~IsPrefixStr(text, s.out) \/ Len(s.out) # Len(text) + DigestChars + 1 THEN {"index"} ELSE {})
        \cup (IF s.threads > Most(cfg, r.cpus) THEN {"threads"} ELSE {})
        \* there are files in every tree; one thread may as well be the calling one
        \cup (IF s.threads = 0 /\ Least(cfg, r.cpus) > 1 /\ s.res[1] = "ok" THEN {"no threads"} ELSE {})
        \cup (IF ~cfg.progress /\ s.err # "" THEN {"printed"} ELSE {})
        \cup (IF cfg.progress /\ s.err = "" /\ s.res[1] = "ok" THEN {"silent"} ELSE {})
Judge(r) ==
    IF r.kind = "calls"
    THEN IF Len(r.scans) # Len(Scans(r)) THEN {"crash"} ELSE UNION {JudgeScan(r, j) : j \in 1..Len(r.scans)}
    ELSE LET cfg == After(r.cmds) IN
         (IF r.opened < LeastAtWork(cfg, r.cpus, r.files) THEN {"idle"} ELSE {})
         \cup (IF r.opened > MostAtWork(cfg, r.cpus, r.files) THEN {"ahead"} ELSE {})
         \cup (IF r.end # "ok" THEN {"crash"} ELSE {})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET v == Judge(Recs[l + 1]) IN
          IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Recs[l + 1].id, labels |-> v]))
       /\ seen' = seen + (IF Recs[l + 1].kind = "calls" THEN Len(Recs[l + 1].scans) ELSE 1)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, scans |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
