----------------------------- MODULE TraceFault -----------------------------
(* Judges recorded scans in which a system call failed, against Tree. Record: *)
(* [id, ht, bs, ov, runs]; a run is [faults, res, out]; a fault is            *)
(* [op, at, nth, intr, fired]: the call, what it was about ("root", "dir",    *)
(* "file", "link", "special"), which occurrence of it, and whether it was     *)
(* only an interruption. A run may also have setup: "noroot" (no directory    *)
(* given), "badroot" (one is missing), "nodir" (one is not a directory), else *)
(* "ok".                                                                      *)
EXTENDS Tree, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
IsPrefixStr(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Text(rec) == LineStr(HeaderToks(rec.ht, rec.bs)) \o "\n" \o BodyStr(Entries(rec.ov))

\* the category that tells what failed
Category(f) ==
    CASE f.at = "root" /\ f.op = "open" /\ f.nth = 1 -> {"OpenDir"}
      [] f.at = "root" /\ f.op = "open" -> {"OpenDir", "ListDir"}
      [] f.at \in {"root", "dir"} /\ f.op \in {"open", "readdir"} -> {"ListDir"}
      [] f.at \in {"root", "dir"} -> {"ListDir", "ReadFile"}
      [] f.op = "stat" -> {"ReadFile", "ListDir"}
      [] OTHER -> {"ReadFile"}
Hits(run) == {i \in 1..Len(run.faults) : run.faults[i].fired /\ ~run.faults[i].intr}
Failed(text, run, cats) ==
    IF run.res[1] = "ok" THEN {"success"}
    ELSE (IF run.res[2] \notin cats THEN {"category"} ELSE {})
         \cup (IF ~IsPrefixStr(run.out, text) THEN {"prefix"} ELSE {})
Whole(text, run) ==
    IF run.res[1] # "ok" THEN {"error"}
    ELSE IF IsPrefixStr(text, run.out) /\ Len(run.out) = Len(text) + DigestChars + 1 THEN {} ELSE {"bytes"}
JudgeRun(text, run) ==
    IF run.res[1] \notin {"ok", "e"} THEN {"crash"}
    ELSE IF run.setup = "noroot" THEN Failed(text, run, {"NoRoot"})
    ELSE IF run.setup = "badroot" THEN Failed(text, run, {"OpenDir"})
    ELSE IF run.setup = "nodir" THEN Failed(text, run, {"OpenDir", "ListDir"})
    ELSE IF /\ Hits(run) # {} /\ run.res[1] = "ok"
            /\ \A i \in Hits(run) : run.faults[i].op = "stat" /\ run.faults[i].nth # 0
    \* what could be found out all the same
    THEN Whole(text, run)
    ELSE IF Hits(run) # {} THEN Failed(text, run, UNION {Category(run.faults[i]) : i \in Hits(run)})
    ELSE Whole(text, run)

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1]
              text == Text(rec)
          IN  /\ \A k \in 1..Len(rec.runs) :
                   LET v == JudgeRun(text, rec.runs[k])
                   IN  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> rec.id, run |-> k, labels |-> v]))
              /\ seen' = seen + Len(rec.runs)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, runs |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
