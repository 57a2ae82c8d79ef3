------------------------------- MODULE MCRes -------------------------------
EXTENDS Res
f(n) == [n |-> <<n>>, t |-> "f", x |-> FALSE, sz |-> "0", h |-> <<>>]
s(n) == [n |-> <<n>>, t |-> "s", l |-> <<46>>]
d(n, c) == [n |-> <<n>>, t |-> "d", c |-> c]
\* wide, deep, empty, overlapping
Ts == { <<>>, <<f(1)>>, <<f(1), s(2)>>, <<d(1, <<>>), d(2, <<f(1)>>), d(3, <<>>)>>,
        <<d(1, <<d(1, <<d(1, <<f(1)>>)>>), f(2)>>), f(3)>>,
        <<d(1, <<f(1)>>), d(2, <<d(1, <<s(1)>>), d(2, <<f(2)>>)>>)>>,
        <<f(1), f(2), f(3), d(4, <<f(1), f(2)>>)>> }
Ov == {<<>>} \cup {<<t>> : t \in Ts} \cup {<<t, u>> : t, u \in Ts}
=============================================================================
