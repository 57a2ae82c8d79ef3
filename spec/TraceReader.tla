----------------------------- MODULE TraceReader -----------------------------
(* Judges recorded sessions of the real parser against Reader.                *)
(* Record: [id, lines, part, fail, open, ops, res, peak, limit]; an op is     *)
(* [o |-> "n"], [o |-> "a", k |-> kind, p |-> components] or [o |-> "r"] (open*)
(* again from the start).                                                     *)
EXTENDS Obs, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

Allowed(inp, bs, s, op) ==
    CASE op.o = "n" -> Take(inp, bs, s)
      [] op.o = "a" -> Seek(inp, bs, s, IF op.k = "d" THEN Dir(op.p) ELSE File(op.p))

\* acc: the states the reader may be in, and what is wrong
Step(rec, h, acc, i) ==
    IF acc.bad # {} THEN acc
    ELSE IF rec.ops[i].o = "r" THEN [acc EXCEPT !.S = {Start}]
    ELSE LET all == UNION {Allowed(rec, h.bs, s, rec.ops[i]) : s \in acc.S}
             ok == {x \in all : Agrees(rec.res[i], x.r, h.ht, h.bs)}
         IN  IF ok # {} THEN [acc EXCEPT !.S = {x.s : x \in ok}]
             ELSE [acc EXCEPT !.bad = {[at |-> i, why |-> Blame(rec.res[i], {x.r : x \in all}), op |-> rec.ops[i].o]}]
Run(rec, h) == FoldLeft(LAMBDA acc, i : Step(rec, h, acc, i), [S |-> {Start}, bad |-> {}], [i \in 1..Len(rec.ops) |-> i]).bad

\* files and links lie in the directory delivered before them (of sessions with nothing but "n")
Stray(rec, acc, i) ==
    LET ob == rec.res[i] IN
    IF acc.bad # {} THEN acc
    ELSE IF Outside(ob) \/ (ob.k \in {"f", "l"} /\ acc.cd # <<Parent(ob.p)>>)
    THEN [acc EXCEPT !.bad = {[at |-> i, why |-> "outside", op |-> "n"]}]
    ELSE IF ob.k = "d" THEN [acc EXCEPT !.cd = <<ob.p>>] ELSE acc
Strays(rec) == FoldLeft(LAMBDA acc, i : Stray(rec, acc, i), [cd |-> <<>>, bad |-> {}], [i \in 1..Len(rec.res) |-> i]).bad
OnlyNext(rec) == \A i \in 1..Len(rec.ops) : rec.ops[i].o = "n"

Judge(rec) ==
    LET hs == {h \in OpenReadings(rec) : OpenAgrees(rec.open, h, rec)} IN
    (IF hs = {} THEN {[at |-> 0, why |-> IF rec.open[1] \in {"ok", "e"} THEN "open" ELSE "crash", op |-> "open"]}
     ELSE LET h == CHOOSE x \in hs : TRUE IN
          IF h.o = "err" THEN {}
          ELSE Run(rec, h)
               \cup (IF OnlyNext(rec) THEN Strays(rec) ELSE {}))
    \cup (IF rec.peak > rec.limit THEN {[at |-> 0, why |-> "memory", op |-> "all"]} ELSE {})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Report(rec, v) == \A x \in v : PrintT("@@" \o ToJson([id |-> rec.id, at |-> x.at, why |-> x.why, op |-> x.op]))
Next ==
    \/ /\ l < Len(Recs)
       /\ Report(Recs[l + 1], Judge(Recs[l + 1]))
       /\ seen' = seen + Len(Recs[l + 1].ops)
       /\ l' = l + 1
    \/ /\ l = Len(Recs)
       /\ PrintT("@@" \o ToJson([done |-> l, ops |-> seen]))
       /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
