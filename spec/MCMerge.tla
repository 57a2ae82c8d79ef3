------------------------------- MODULE MCMerge -------------------------------
(* The merging iterator as it is built (a peeked head per index, the least    *)
(* head found in one pass) against Merge; printed for replay.                 *)
EXTENDS Merge, TLC, Json, IOUtils, SequencesExt

MaxOps == atoi(IOEnv.DSV_OPS)
Inputs == atoi(IOEnv.DSV_INPUTS)
Keys == 1..3
ICmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Ent(k) == [o |-> "entry", e |-> k]
Bad == [o |-> "err"]
Up(S) == SetToSortSeq(S, <)
Sorted1 == {[i \in 1..Cardinality(S) |-> Ent(Up(S)[i])] : S \in SUBSET Keys}
Lists == Sorted1 \cup {<<Bad>> \o s : s \in {x \in Sorted1 : Len(x) = 1}} \cup {Append(s, Bad) : s \in {x \in Sorted1 : Len(x) <= 1}}

VARIABLES its, pos, ipos, groups, same, lastop, ops, pure
vars == <<its, pos, ipos, groups, same, lastop, ops, pure>>
Init == /\ its \in UNION {[1..m -> Lists] : m \in 0..Inputs}
        /\ pos = [i \in 1..Len(its) |-> 1] /\ ipos = pos /\ groups = <<>> /\ same = TRUE
        /\ lastop = "-" /\ ops = 0 /\ pure = TRUE

\* one pass over the heads, as the code does it
Scan(i, acc) ==
    IF pos[i] > Len(its[i]) THEN acc
    ELSE IF its[i][pos[i]].o = "err" THEN [acc EXCEPT !.ix = @ \cup {i}]
    ELSE LET k == its[i][pos[i]].e IN
         IF acc.min = 0 THEN [min |-> k, ix |-> acc.ix \cup {i}]
         ELSE IF k < acc.min THEN [min |-> k, ix |-> {i}]
         ELSE IF k = acc.min THEN [acc EXCEPT !.ix = @ \cup {i}]
         ELSE acc
ImplGroup == FoldLeft(LAMBDA acc, i : Scan(i, acc), [min |-> 0, ix |-> {}], [i \in 1..Len(its) |-> i]).ix

DoNext == LET G == ImplGroup IN
          /\ same' = GroupAllowed(its, pos, G, ICmp)
          /\ pos' = Consumed(pos, G)
          /\ groups' = IF G = {} THEN groups ELSE Append(groups, [i \in 1..Len(its) |-> IF i \in G THEN its[i][pos[i]] ELSE CNone])
          /\ lastop' = IF G = {} THEN "end" ELSE "n"
          /\ UNCHANGED pure
\* the code peeks at the head of an index before it seeks
ISeek(i, k) ==
    IF pos[i] > Len(its[i]) THEN CRes(CNone, pos[i])
    ELSE LET h == its[i][pos[i]] IN
         IF h.o = "err" \/ h.e = k THEN CRes(h, pos[i] + 1)
         ELSE IF h.e > k THEN CRes(CNone, pos[i])
         ELSE CAdvance(its[i], pos[i] + 1, k, ICmp)
DoSeek(k) == LET sk == Seek1(its, pos, k, ICmp) IN
             /\ same' = (\A i \in 1..Len(its) : ISeek(i, k) = sk[i])
             /\ pos' = Moved(sk)
             /\ groups' = Append(groups, [i \in 1..Len(its) |-> sk[i].r])
             /\ lastop' = "a" /\ pure' = FALSE
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<its, ipos>>
        /\ (DoNext \/ \E k \in 0..4 : DoSeek(k))
Spec == Init /\ [][Next]_vars

AsPromised == same
Key(g) == LET S == {g[i].e : i \in {j \in 1..Len(g) : g[j].o = "entry"}} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
OneKey == \A n \in 1..Len(groups) : Cardinality({groups[n][i].e : i \in {j \in 1..Len(its) : groups[n][j].o = "entry"}}) <= 1
\* an error hides what its index has next, so the order is promised for sound indexes
Sound == \A i \in 1..Len(its) : \A j \in 1..Len(its[i]) : its[i][j] # Bad
Increasing == pure /\ Sound => \A m, n \in 1..Len(groups) : m < n /\ Key(groups[m]) > 0 /\ Key(groups[n]) > 0 => Key(groups[m]) < Key(groups[n])
\* what an index has had delivered is a part of it in order, and all of it in the end without seeking
Got(i) == SelectSeq([n \in 1..Len(groups) |-> groups[n][i]], LAMBDA r : r.o # "none")
RECURSIVE SubSeqOf(_, _)
SubSeqOf(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                  ELSE IF s[1] = t[1] THEN SubSeqOf(Tail(s), Tail(t)) ELSE SubSeqOf(s, Tail(t))
InOrder == \A i \in 1..Len(its) : SubSeqOf(Got(i), its[i])
AllInTheEnd == pure /\ lastop = "end" => \A i \in 1..Len(its) : Got(i) = its[i]

Num(it) == IF it = Bad THEN -1 ELSE it.e
OpSet == {<<"n">>} \cup {<<"a", k>> : k \in 0..4}
Gen(x) == \A m \in 0..Inputs : \A s \in [1..m -> Lists] : \A o \in [1..MaxOps -> OpSet] :
             PrintT("@@" \o ToJson([its |-> [i \in 1..m |-> [j \in 1..Len(s[i]) |-> Num(s[i][j])]], ops |-> o, x |-> x]))
GenInit == /\ its = <<>> /\ pos = <<>> /\ ipos = pos /\ groups = <<>> /\ same = TRUE /\ lastop = "-" /\ ops = 0 /\ pure = TRUE
GenSpec == GenInit /\ [][ops = 0 /\ Gen(ops) /\ ops' = 1 /\ UNCHANGED <<its, pos, ipos, groups, same, lastop, pure>>]_vars
=============================================================================
