----------------------------- MODULE TraceMerge -----------------------------
(* Judges recorded sessions with several indexes against Merge. Record:       *)
(* [id, inputs, open, ops, res]; an input is as in Reader, with file |-> "ok",*)
(* "none" (cannot be opened; only for inputs given by path). A result is      *)
(* [k |-> "g", m |-> <<[i |-> index, ob |-> observation]>>], "none" or a      *)
(* crash. file may also be "dir" (a directory where an index is expected).    *)
(* Where loose is TRUE only crashes and endless iteration count. Where several  *)
(* indexes share a key, key[i] is the first index with the key of index i, an   *)
(* answer's i is such a first index, and which of them was meant follows from   *)
(* the order; key is empty if all keys differ.                                  *)
EXTENDS Obs, Merge, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

\* the items of an input that leaves no choice
ItemsOn(inp, bs, acc) ==
    IF acc.end THEN acc
    ELSE LET x == Take(inp, bs, acc.s)
             one == CHOOSE y \in x : TRUE
         IN  IF Assert(Cardinality(x) = 1, <<"ambiguous input", inp.lines, acc.s.pos>>) /\ one.r.o = "none"
             THEN [acc EXCEPT !.end = TRUE]
             ELSE [s |-> one.s, items |-> Append(acc.items, one.r), end |-> FALSE]
Items(inp, bs) ==
    FoldLeft(LAMBDA acc, i : ItemsOn(inp, bs, acc), [s |-> Start, items |-> <<>>, end |-> FALSE],
             [i \in 1..(Len(inp.lines) + 3) |-> i]).items
HeaderOf(inp) == CHOOSE h \in OpenReadings(inp) : TRUE
ECmp(e, k) == Cmp(KindOf(e), KindOf(k))
Wanted(op) == [k |-> op.k, p |-> op.p]

\* building
Problems(rec) ==
    LET n == Len(rec.inputs)
        hs == [i \in 1..n |-> IF rec.inputs[i].file = "ok" THEN HeaderOf(rec.inputs[i]) ELSE HErr]
        good == {i \in 1..n : hs[i].o = "ok"}
    IN  (IF \E i \in 1..n : rec.inputs[i].file # "ok" THEN {"io"} ELSE {})
        \cup (IF \E i \in 1..n : rec.inputs[i].file \in {"ok", "dir"} /\ hs[i].o = "err" THEN {"parse"} ELSE {})
        \cup (IF \E i, j \in good : hs[i].ht # hs[j].ht THEN {"hash"} ELSE {})
        \cup (IF \E i, j \in good : hs[i].bs # hs[j].bs THEN {"block"} ELSE {})
OpenOk(rec) ==
    LET p == Problems(rec) IN
    IF p = {} THEN rec.open = "ok"
    \* unreadable or malformed inputs are noticed before the headers can be compared
    ELSE IF p \cap {"io", "parse"} # {} THEN rec.open \in p \cap {"io", "parse"}
    ELSE rec.open \in p

Part(its, pos, m, ht, bs) ==
    /\ \A j \in 1..Len(m) : m[j].i \in 1..Len(its) /\ (j > 1 => m[j - 1].i < m[j].i)
    /\ \A j \in 1..Len(m) : pos[m[j].i] <= Len(its[m[j].i]) /\ Agrees(m[j].ob, its[m[j].i][pos[m[j].i]], ht, bs)
Idx(m) == {m[j].i : j \in 1..Len(m)}
\* the indexes an answer may be from
Ways(key, m) ==
    IF key = <<>> THEN {m}
    ELSE {[j \in 1..Len(m) |-> [m[j] EXCEPT !.i = s[j]]] :
             s \in {t \in {SetToSortSeq(I, <) : I \in {J \in SUBSET (1..Len(key)) : Cardinality(J) = Len(m)}} :
                      \A j \in 1..Len(m) : key[t[j]] = m[j].i}}

Step(rec, its, ht, bs, acc, i) ==
    LET op == rec.ops[i]
        ob == rec.res[i]
        pos == acc.pos
        bad(w) == [acc EXCEPT !.bad = {[at |-> i, why |-> w, op |-> op.o]}]
    IN
    IF acc.bad # {} THEN acc
    ELSE IF ob.k \notin {"g", "none"} THEN bad("crash")
    ELSE IF op.o = "n"
    THEN IF ob.k = "none"
         THEN IF GroupAllowed(its, pos, {}, ECmp) THEN acc ELSE bad("end")
         ELSE LET good == TLCEval({m \in Ways(rec.key, ob.m) : m # <<>> /\ Part(its, pos, m, ht, bs) /\ GroupAllowed(its, pos, Idx(m), ECmp)})
              IN  IF good = {} THEN bad("group")
                  ELSE [acc EXCEPT !.pos = TLCEval(Consumed(pos, Idx(CHOOSE m \in good : TRUE)))]
    ELSE LET sk == TLCEval(Seek1(its, pos, Wanted(op), ECmp)) IN
         IF /\ ob.k = "g"
            /\ \E m \in Ways(rec.key, ob.m) :
                  /\ Idx(m) = Found(sk)
                  /\ \A j \in 1..Len(m) : (j > 1 => m[j - 1].i < m[j].i) /\ Agrees(m[j].ob, sk[m[j].i].r, ht, bs)
         THEN [acc EXCEPT !.pos = TLCEval(Moved(sk))]
         ELSE bad("seek")
Run(rec, its, ht, bs) ==
    FoldLeft(LAMBDA acc, i : Step(rec, its, ht, bs, acc, i), [pos |-> [i \in 1..Len(its) |-> 1], bad |-> {}],
             [i \in 1..Len(rec.ops) |-> i]).bad

Judge(rec) ==
    IF rec.loose THEN IF rec.open = "crash" \/ \E i \in 1..Len(rec.res) : rec.res[i].k \notin {"g", "none"}
                      THEN {[at |-> 0, why |-> "crash", op |-> "any"]} ELSE {}
    ELSE IF ~OpenOk(rec) THEN {[at |-> 0, why |-> IF rec.open = "crash" THEN "crash" ELSE "open", op |-> "open"]}
    ELSE IF rec.open # "ok" THEN {}
    ELSE IF rec.inputs = <<>> THEN Run(rec, <<>>, "", Zero)
    ELSE LET h == HeaderOf(rec.inputs[1])
             its == TLCEval([i \in 1..Len(rec.inputs) |-> Items(rec.inputs[i], h.bs)])
         IN  Run(rec, its, h.ht, h.bs)

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Report(rec, v) == \A x \in v : PrintT("@@" \o ToJson([id |-> rec.id, at |-> x.at, why |-> x.why, op |-> x.op]))
Next ==
    \/ /\ l < Len(Recs)
       /\ Report(Recs[l + 1], Judge(Recs[l + 1]))
       /\ seen' = seen + Len(Recs[l + 1].ops)
       /\ l' = l + 1
    \/ /\ l = Len(Recs)
       /\ PrintT("@@" \o ToJson([done |-> l, ops |-> seen]))
       /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
