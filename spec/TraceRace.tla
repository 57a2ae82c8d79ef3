------------------------------ MODULE TraceRace ------------------------------
(* Judges recorded scans of trees that changed meanwhile (Race is the design).*)
(* Record: [id, ht, bs, runs]; run: [vers: the trees there were one after     *)
(* another, touched: paths of what changed, gone: something was removed or    *)
(* replaced, fatal: ... just when it was needed, res, hdr, rows, foot, term,  *)
(* bd].                                                                       *)
EXTENDS Tree, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

IsDirRow(r) == Len(r) = 1 /\ Len(r[1]) >= 1 /\ SubSeq(r[1], 1, 1) = "/"
IsLinkRow(r) == Len(r) = 5 /\ r[1] = "" /\ r[2] = "" /\ r[3] # "" /\ r[4] = "s"
IsFileRow(r, bs) ==
    /\ Len(r) >= 5 /\ r[1] = "" /\ r[2] = "" /\ r[3] # "" /\ r[4] \in {"f", "x"} /\ IsDigits(r[5])
    /\ NumBlocksIs(NumOf(r[5]), NumOf(bs), Len(r) - 5)
    /\ \A j \in 6..Len(r) : Len(r[j]) = DigestChars /\ \A c \in 1..DigestChars : IsLowerHex(Code[SubSeq(r[j], c, c)])
\* the directory tokens above every row
Above(rows) == FoldLeft(LAMBDA a, r : Append(a, IF IsDirRow(r) THEN r[1] ELSE IF a = <<>> THEN "" ELSE a[Len(a)]), <<>>, rows)

RECURSIVE Split(_, _, _)
Split(bs, cur, acc) == IF bs = <<>> THEN Append(acc, cur)
                       ELSE IF bs[1] = 47 THEN Split(Tail(bs), <<>>, Append(acc, cur)) ELSE Split(Tail(bs), Append(cur, bs[1]), acc)
PathOf(tok) == IF tok = "/" THEN <<>> ELSE Split(Tail(Unescape(tok)), <<>>, <<>>)

\* what a row says is there
Fact(above, r) == IF IsDirRow(r) THEN <<"d", r[1]>> ELSE IF r[4] = "s" THEN <<"s", above, r[3], r[5]>> ELSE <<"f", above, r[3]>>
FactOf(e) == IF e.k = "d" THEN <<"d", EscPath(e.p)>>
             ELSE IF e.node.t = "s" THEN <<"s", EscPath(Parent(e.p)), Escape(e.node.n), Escape(e.node.l)>>
             ELSE <<"f", EscPath(Parent(e.p)), Escape(e.node.n)>>
Kind(above, r) == IF IsDirRow(r) THEN Dir(PathOf(r[1])) ELSE File(Append(PathOf(above), Unescape(r[3])))
Touched(run, p) == \E i \in 1..Len(run.touched) : IsPrefix(run.touched[i], p)

Ok(rec, run) ==
    LET rows == run.rows
        ab == Above(rows)
        n == Len(rows)
        formed == \A i \in 1..n : (IsDirRow(rows[i]) \/ IsLinkRow(rows[i]) \/ IsFileRow(rows[i], rec.bs)) /\ ab[i] # ""
        facts == UNION {{FactOf(e) : e \in Range(Entries(<<run.vers[i]>>))} : i \in 1..Len(run.vers)}
        still == SelectSeq(Entries(<<run.vers[1]>>), LAMBDA e : ~Touched(run, e.p))
        got == {<<ab[i], rows[i]>> : i \in 1..n}
    IN  (IF run.hdr = HeaderToks(rec.ht, rec.bs) /\ run.foot = <<run.bd>> /\ Len(run.bd) = DigestChars /\ run.term THEN {} ELSE {"frame"})
        \cup (IF ~formed THEN {"form"}
              ELSE (IF \A i \in 1..n : Fact(ab[i], rows[i]) \in facts THEN {} ELSE {"invented"})
                   \cup (IF \A i \in 1..n - 1 : Lt(Kind(ab[i], rows[i]), Kind(ab[i + 1], rows[i + 1])) THEN {} ELSE {"order"})
                   \cup (IF \A e \in Range(still) : <<EscPath(Home(e)), EntryToks(e)>> \in got THEN {} ELSE {"lost"}))
        \cup (IF run.fatal THEN {"success"} ELSE {})
Failed(run) ==
    (IF run.gone THEN {} ELSE {"failure"})
    \cup (IF run.res[2] \notin {"ListDir", "ReadFile"} THEN {"category"} ELSE {})
    \* no whole index
    \cup (IF run.term /\ run.foot = <<run.bd>> THEN {"whole"} ELSE {})
JudgeRun(rec, run) ==
    IF run.res[1] = "ok" THEN Ok(rec, run) ELSE IF run.res[1] = "e" THEN Failed(run) ELSE {"crash"}

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1]
          IN  /\ \A k \in 1..Len(rec.runs) :
                   LET v == JudgeRun(rec, rec.runs[k])
                   IN  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> rec.id, run |-> k, labels |-> v]))
              /\ seen' = seen + Len(rec.runs)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, runs |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
