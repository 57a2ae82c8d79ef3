------------------------------ MODULE MCWork ------------------------------
EXTENDS Work
f(n, b) == [n |-> <<n>>, t |-> "f", x |-> FALSE, sz |-> "0", h |-> [i \in 1..b |-> "00"]]
s(n) == [n |-> <<n>>, t |-> "s", l |-> <<46>>]
o(n) == [n |-> <<n>>, t |-> "o"]
d(n, c) == [n |-> <<n>>, t |-> "d", c |-> c]
Ts == { <<>>, <<f(1, 0)>>, <<f(1, 2), s(2), o(3)>>, <<d(1, <<>>), d(2, <<f(1, 1)>>)>>,
        <<d(1, <<d(1, <<o(1)>>), f(2, 1)>>), f(3, 2)>> }
Ov == {<<>>} \cup {<<t>> : t \in Ts} \cup {<<t, u>> : t, u \in Ts}
Ls == {<<>>, <<3>>, <<3, 1, 5>>, <<1, 1, 1, 1, 7, 2>>, <<9, 9, 9>>}
=============================================================================
