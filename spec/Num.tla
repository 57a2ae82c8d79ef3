--------------------------------- MODULE Num ---------------------------------
(* Decimal numbers of any length, as digit sequences (TLC's integers have 32  *)
(* bits, sizes and block sizes have 64).                                      *)
EXTENDS Format

IsDigits(str) == Len(str) > 0 /\ \A i \in 1..Len(str) : Code[SubSeq(str, i, i)] \in 48..57
Digits(str) == [i \in 1..Len(str) |-> Code[SubSeq(str, i, i)] - 48]
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
NumOf(str) == Strip(Digits(str))
DecStr(d) == FoldLeft(LAMBDA a, x : a \o ToString(x), "", d)

\* -1, 0, 1; without leading zeros
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
NumCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, 1)

RECURSIVE CarryOut(_, _)
CarryOut(c, acc) == IF c = 0 THEN acc ELSE CarryOut(c \div 10, <<c % 10>> \o acc)
\* a times a small number
MulSmall(a, k) ==
    LET r == FoldRight(LAMBDA x, acc : [d |-> <<(x * k + acc.c) % 10>> \o acc.d, c |-> (x * k + acc.c) \div 10],
                       a, [d |-> <<>>, c |-> 0])
    IN  Strip(IF r.c = 0 /\ r.d # <<>> THEN r.d ELSE CarryOut(r.c, r.d))

U64Max == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
FitsU64(d) == NumCmp(d, U64Max) <= 0
Zero == <<0>>

\* k = ceil(size / bs), for a small k
NumBlocksIs(size, bs, k) ==
    IF k = 0 THEN size = Zero
    ELSE NumCmp(MulSmall(bs, k - 1), size) < 0 /\ NumCmp(size, MulSmall(bs, k)) <= 0
=============================================================================
