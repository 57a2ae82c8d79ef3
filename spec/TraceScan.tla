------------------------------ MODULE TraceScan ------------------------------
(* Judges recorded scans of real trees against Tree. Each record is an overlay *)
(* and the distinct outcomes of scanning it under various conditions.          *)
EXTENDS Tree, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

\* rows as the known deviation K1 of the blake3 hasher has them (digests accumulate): field "d"
DevToks(e, fld) ==
    IF e.k = "d" \/ e.node.t = "s" THEN EntryToks(e)
    ELSE FileToks(e.node.n, e.node.x, e.node.sz, e.node[fld])
DevRows(entries, fld) == [i \in 1..Len(entries) |-> DevToks(entries[i], fld)]

\* the digest table of the record must be complete, or nothing below means anything
RECURSIVE TableOk(_, _)
TableOk(nodes, bs) ==
    \A i \in 1..Len(nodes) :
        /\ nodes[i].t = "f" => /\ NumBlocksIs(NumOf(nodes[i].sz), NumOf(bs), Len(nodes[i].h))
                               /\ \A j \in 1..Len(nodes[i].h) : Len(nodes[i].h[j]) = DigestChars
        /\ nodes[i].t = "d" => TableOk(nodes[i].c, bs)

IsDirRow(r) == Len(r) >= 1 /\ Len(r[1]) >= 1 /\ SubSeq(r[1], 1, 1) = "/"
IsEntryRow(r) == Len(r) >= 5 /\ r[1] = "" /\ r[2] = "" /\ r[3] # "" /\ r[4] \in {"f", "x", "s"}
IsBad(r) == ~(IsDirRow(r) /\ Len(r) = 1) /\ ~(IsEntryRow(r) /\ (r[4] # "s" \/ Len(r) = 5))
\* the directory token above row i, given the numbers of the rows of directories
RECURSIVE Below(_, _, _, _)
Below(ds, lo, hi, i) ==   \* how many of them are at most i: between lo and hi
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN IF ds[m] <= i THEN Below(ds, m, hi, i) ELSE Below(ds, lo, m - 1, i)
DirAbove(rows, ds, i) == LET k == Below(ds, 0, Len(ds), i) IN IF k = 0 THEN "" ELSE rows[ds[k]][1]
\* what a row says is there: kind, place, target
Id(rows, ds, i) ==
    LET r == rows[i] IN
    IF IsBad(r) THEN <<"bad", r>>
    ELSE IF IsDirRow(r) THEN <<"d", Unescape(r[1])>>
    ELSE IF r[4] = "s" THEN <<"s", Unescape(DirAbove(rows, ds, i)), Unescape(r[3]), Unescape(r[5])>>
    ELSE <<"f", Unescape(DirAbove(rows, ds, i)), Unescape(r[3])>>
Ids(rows) ==
    LET ds == TLCEval(SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : IsDirRow(rows[i])))
    IN  TLCEval([i \in 1..Len(rows) |-> Id(rows, ds, i)])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) ==
    LET r == Range(s) IN
    Len(s) = Len(t) /\ r = Range(t) /\ (Cardinality(r) = Len(s) \/ \A x \in r : Count(s, x) = Count(t, x))

Text(r) == IF IsDirRow(r) THEN <<r[1]>> ELSE IF Len(r) < 3 THEN r ELSE IF Len(r) >= 5 /\ r[4] = "s" THEN <<r[3], r[5]>> ELSE <<r[3]>>
Shape(r) == IF IsDirRow(r) THEN "d" ELSE IF Len(r) >= 4 THEN (IF r[4] = "x" THEN "f" ELSE r[4]) ELSE "?"
Rest(r) == IF IsEntryRow(r) /\ r[4] # "s" THEN SubSeq(r, 4, Len(r)) ELSE <<>>
\* of the f/x flag only (the kind as such is part of the contents)

Differences(want, got) ==
    LET wi == Ids(want)
        gi == Ids(got)
        bag == SameBag(wi, gi)
        aligned == Len(want) = Len(got) /\ \A i \in 1..Len(want) : Shape(want[i]) = Shape(got[i])
    IN  (IF ~bag THEN {"contents"} ELSE {})
        \cup (IF bag /\ wi # gi THEN {"order"} ELSE {})
        \cup (IF bag /\ LET g == {<<gi[j], Rest(got[j])>> : j \in 1..Len(got)}
                         IN  \E i \in 1..Len(want) : <<wi[i], Rest(want[i])>> \notin g
              THEN {"records"} ELSE {})
        \cup (IF bag /\ wi = gi /\ \E i \in 1..Len(want) : Rest(got[i]) # Rest(want[i]) THEN {"records"} ELSE {})
        \cup (IF \/ \E i \in 1..Len(got) : IsBad(got[i])
                 \/ \E i \in 1..Len(got) : \E j \in 1..Len(Text(got[i])) :
                        LET t == Text(got[i])[j] IN ~AsciiClean(t) \/ ~CanonicalToken(t)
                 \/ aligned /\ \E i \in 1..Len(got) : Text(got[i]) # Text(want[i])
              THEN {"escape"} ELSE {})

\* run: [res, n (runs with this outcome), hdr, rows, foot, term, bd, mode]
JudgeRun(rec, E, want, run) ==
    IF run.res[1] # "ok" THEN {"result"}
    ELSE (IF run.hdr # HeaderToks(rec.ht, rec.bs) THEN {"header"} ELSE {})
         \cup (IF run.foot # <<run.bd>> \/ Len(run.bd) # DigestChars \/ ~run.term THEN {"footer"} ELSE {})
         \cup (IF run.rows = want THEN {}
               ELSE IF rec.ht = "blake3/256" /\ run.rows = DevRows(E, IF run.mode = "pool" THEN "dp" ELSE "ds")
                    THEN {"K1"}
               ELSE LET d == Differences(want, run.rows) IN IF d = {} THEN {"other"} ELSE d)

\* the trees as they are: within a chain of directories
Wrapped(wrap, nodes) == FoldRight(LAMBDA w, t : <<[n |-> w, t |-> "d", c |-> t]>>, wrap, nodes)
Judge(rec) ==
    LET E == Entries([i \in 1..Len(rec.ov) |-> Wrapped(rec.wrap, rec.ov[i])])
        want == BodyToks(E)
        own == [k \in 1..Len(rec.runs) |-> JudgeRun(rec, E, want, rec.runs[k])]
        \* the known deviation explains why two runs differ
        explained(k) == "K1" \in own[k] \cup own[1] /\ own[k] \cup own[1] = {"K1"}
    IN  [k \in 1..Len(rec.runs) |-> own[k]
           \cup (IF rec.runs[k].key # rec.runs[1].key /\ ~explained(k) THEN {"repro"} ELSE {})]

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Report(rec, v) ==
    \A k \in 1..Len(v) :
        IF v[k] = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> rec.id, run |-> k, labels |-> v[k]]))
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1] IN
            /\ Assert(\A i \in 1..Len(rec.ov) : TableOk(rec.ov[i], rec.bs), <<"digest table", rec.id>>)
            /\ Report(rec, Judge(rec))
            /\ seen' = seen + Len(rec.runs)
       /\ l' = l + 1
    \/ /\ l = Len(Recs)
       /\ PrintT("@@" \o ToJson([done |-> l, runs |-> seen]))
       /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
