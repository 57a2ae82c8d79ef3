------------------------------ MODULE MCCursor ------------------------------
(* The reader as it is built (a row read ahead and kept when a seek stops     *)
(* short) in step with Cursor, on all small item sequences and all sequences  *)
(* of operations; and these sequences printed for replay.                     *)
EXTENDS Cursor, TLC, Json, IOUtils, SequencesExt

Keys == 0..5
Wanted == 0..6
MaxOps == atoi(IOEnv.DSV_OPS)
ICmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Ent(k) == [o |-> "entry", e |-> k]
Bad == [o |-> "err"]
\* key 0 first (a directory line), then increasing keys, and errors in between
Up(S) == SetToSortSeq(S, <)
Plain == {<<Ent(0)>> \o [i \in 1..Cardinality(S) |-> Ent(Up(S)[i])] : S \in {T \in SUBSET (1..5) : Cardinality(T) <= 3}}
WithErr == {InsertAt(s, i, Bad) : s \in {x \in Plain : Len(x) \in 2..3}, i \in 2..2}
           \cup {Append(s, Bad) : s \in {x \in Plain : Len(x) <= 3}}
ItemSeqs == Plain \cup WithErr \cup {<<>>}

VARIABLES items, pos, row, rd, ares, ires, op, from, ops, taken
vars == <<items, pos, row, rd, ares, ires, op, from, ops, taken>>
Init == /\ items \in ItemSeqs /\ pos = 1 /\ row = 0 /\ rd = 0 /\ ares = CNone /\ ires = CNone
        /\ op = <<"-">> /\ from = 1 /\ ops = 0 /\ taken = <<>>

\* implementation: row = 0 or the number of the row kept
INext == LET r == IF row # 0 THEN row ELSE rd + 1 IN
         IF r > Len(items) THEN [res |-> CNone, row |-> 0, rd |-> rd]
         ELSE [res |-> items[r], row |-> 0, rd |-> r]
RECURSIVE IAdv(_, _, _)
IAdv(rw, d, k) ==
    LET r == IF rw # 0 THEN rw ELSE d + 1 IN
    IF r > Len(items) THEN [res |-> CNone, row |-> 0, rd |-> d]
    ELSE IF items[r].o = "err" THEN [res |-> items[r], row |-> 0, rd |-> r]
    ELSE IF items[r].e < k THEN IAdv(0, r, k)
    ELSE IF items[r].e = k THEN [res |-> items[r], row |-> 0, rd |-> r]
    ELSE [res |-> CNone, row |-> r, rd |-> r]
Do(o, a, i) == /\ op' = o /\ from' = pos /\ pos' = a.pos /\ ares' = a.r
               /\ ires' = i.res /\ row' = i.row /\ rd' = i.rd /\ ops' = ops + 1
               /\ taken' = IF a.r.o = "none" THEN taken ELSE Append(taken, a.pos - 1)
               /\ UNCHANGED items
Next == ops < MaxOps /\ (Do(<<"n">>, CNext(items, pos), INext)
                         \/ \E k \in Wanted : Do(<<"a", k>>, CAdvance(items, pos, k, ICmp), IAdv(row, rd, k)))
Spec == Init /\ [][Next]_vars

SameResults == ares = ires
SamePlace == pos = IF row # 0 THEN row ELSE rd + 1
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
NeverTwice == Sorted(taken)
\* seeking, in the words of the property
Has(k) == \E i \in from..Len(items) : items[i] = Ent(k)
NoErr == \A i \in 1..Len(items) : items[i].o = "entry"
SeekFinds ==
    op[1] = "a" /\ NoErr =>
        /\ (ares = Ent(op[2])) <=> Has(op[2])
        /\ ares # CNone => items[pos - 1] = Ent(op[2])
        /\ ares = CNone => /\ \A i \in from..pos - 1 : items[i].e < op[2]
                           /\ pos <= Len(items) => items[pos].e > op[2]
                           /\ (from <= Len(items) /\ items[from].e > op[2]) => pos = from
NextIsNext == op[1] = "n" => IF from > Len(items) THEN ares = CNone /\ pos = from ELSE ares = items[from] /\ pos = from + 1
\* errors are never skipped
ErrorsSeen == \A i \in 1..pos - 1 : items[i].o = "err" => \E j \in 1..Len(taken) : taken[j] = i

\* printing for replay
OpSeqs(n) == UNION {[1..m -> {<<"n">>} \cup {<<"a", k>> : k \in Wanted}] : m \in n..n}
Gen(x) == \A s \in ItemSeqs \ {<<>>} : \A o \in OpSeqs(MaxOps) :
             PrintT("@@" \o ToJson([items |-> [i \in 1..Len(s) |-> IF s[i] = Bad THEN -1 ELSE s[i].e], ops |-> o, x |-> x]))
GenInit == /\ items = <<>> /\ pos = 1 /\ row = 0 /\ rd = 0 /\ ares = CNone /\ ires = CNone
           /\ op = <<"-">> /\ from = 1 /\ ops = 0 /\ taken = <<>>
GenSpec == GenInit /\ [][ops = 0 /\ Gen(ops) /\ ops' = 1 /\ UNCHANGED <<items, pos, row, rd, ares, ires, op, from, taken>>]_vars
=============================================================================
