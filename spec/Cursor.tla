------------------------------- MODULE Cursor -------------------------------
(* What reading and seeking in an index promise, over a sequence of items:    *)
(* [o |-> "entry", e] or [o |-> "err", ...]. C(_, _) compares entries.        *)
EXTENDS Integers, Sequences, FiniteSets

CNone == [o |-> "none"]
CRes(r, p) == [r |-> r, pos |-> p]
CNext(items, pos) == IF pos > Len(items) THEN CRes(CNone, pos) ELSE CRes(items[pos], pos + 1)

\* the first item at or after pos at which seeking k stops
CStop(items, pos, k, C(_, _)) ==
    LET S == {i \in pos..Len(items) : items[i].o = "err" \/ C(items[i].e, k) >= 0}
    IN  IF S = {} THEN Len(items) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
CAdvance(items, pos, k, C(_, _)) ==
    LET i == CStop(items, pos, k, C) IN
    IF i > Len(items) THEN CRes(CNone, i)
    ELSE IF items[i].o = "err" \/ C(items[i].e, k) = 0 THEN CRes(items[i], i + 1)
    ELSE CRes(CNone, i)
=============================================================================
