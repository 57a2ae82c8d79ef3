------------------------------ MODULE TraceCli ------------------------------
(* Judges recorded runs of the index tool. Record: [id, ht, bs, ov, runs]:    *)
(* the trees, and runs of the tool on them:                                   *)
(* [args: "ok" | "bad" | "help" | "none" | "gone", dest: "out" | "file",      *)
(*  progress, faults: <<[op, nth, intr, fired]>>, blocked: the output cannot  *)
(*  be created, full: it takes nothing, exit, signal, msg: a message besides  *)
(*  the progress, hdr, rows, foot, term, bd: what is at the chosen place,     *)
(*  chat: progress was told,                                                  *)
(*  stray: bytes at the other place, sum: <<hex, dirs, files, links>> or <<>>,*)
(*  mode: "sync" | "pool"]                                                    *)
EXTENDS Tree, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
DevToks(e, fld) ==
    IF e.k = "d" \/ e.node.t = "s" THEN EntryToks(e)
    ELSE FileToks(e.node.n, e.node.x, e.node.sz, e.node[fld])
DevRows(entries, fld) == [i \in 1..Len(entries) |-> DevToks(entries[i], fld)]

Met(r) == \E i \in 1..Len(r.faults) : r.faults[i].fired /\ ~r.faults[i].intr
MustFail(r) == r.args \in {"bad", "none", "gone"} \/ Met(r) \/ r.blocked \/ r.full
Framed(rec, r) == /\ r.hdr = HeaderToks(rec.ht, rec.bs) /\ r.foot = <<r.bd>> /\ Len(r.bd) = DigestChars /\ r.term
Whole(rec, r, rows) == Framed(rec, r) /\ r.rows = rows
Summary(E, r) ==
    /\ Len(r.sum) = 4
    /\ Len(r.sum[1]) >= 4 /\ Len(r.foot) = 1 /\ Len(r.sum[1]) <= Len(r.foot[1]) /\ SubSeq(r.foot[1], 1, Len(r.sum[1])) = r.sum[1]
    /\ r.sum[2] = ToString(Len(SelectSeq(E, LAMBDA e : e.k = "d")))
    /\ r.sum[3] = ToString(Len(SelectSeq(E, LAMBDA e : e.k = "f" /\ e.node.t = "f")))
    /\ r.sum[4] = ToString(Len(SelectSeq(E, LAMBDA e : e.k = "f" /\ e.node.t = "s")))
Succeeded(rec, E, want, r) ==
    (IF Whole(rec, r, want) THEN {}
     ELSE IF rec.ht = "blake3/256" /\ Whole(rec, r, DevRows(E, IF r.mode = "pool" THEN "dp" ELSE "ds")) THEN {"K1"}
     ELSE {"incomplete"})
    \cup (IF r.stray THEN {"stray"} ELSE {})
    \cup (IF r.msg THEN {"message"} ELSE {})
    \cup (IF r.progress /\ ~Summary(E, r) THEN {"summary"} ELSE {})
    \cup (IF ~r.progress /\ (r.sum # <<>> \/ r.chat) THEN {"chatter"} ELSE {})
JudgeRun(rec, E, want, r) ==
    IF r.signal THEN {"crash"}
    ELSE IF r.args = "help" THEN (IF r.exit = 0 THEN {} ELSE {"help"})
    ELSE IF MustFail(r) THEN (IF r.exit = 0 THEN {"success"} ELSE {}) \cup (IF r.exit # 0 /\ ~r.msg THEN {"silent"} ELSE {})
    ELSE IF r.exit # 0 THEN {"failure"}
    ELSE Succeeded(rec, E, want, r)

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1]
              E == Entries(rec.ov)
              want == BodyToks(E)
          IN  /\ \A k \in 1..Len(rec.runs) :
                   LET v == JudgeRun(rec, E, want, rec.runs[k])
                   IN  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> rec.id, run |-> k, labels |-> v]))
              /\ seen' = seen + Len(rec.runs)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, runs |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
