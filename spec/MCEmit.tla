------------------------------- MODULE MCEmit -------------------------------
(* All short sequences of commands to the emitter: the lines they make are    *)
(* read back by the grammar as the same entries and as nothing else, so that  *)
(* emitting what was read makes the same lines again.                         *)
EXTENDS Emit, Grammar, IOUtils

MaxLen == atoi(IOEnv.DSV_LEN)
Da == "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
Db == "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
Names == {<<97>>, <<92, 120, 52, 49>>, <<32>>, <<46, 46, 97>>, <<255, 10>>}
Paths == {<<>>, <<<<97>>>>, <<<<97>>, <<32, 92>>>>, <<<<46, 46, 46>>>>}
Cmds == {[c |-> "d", p |-> p] : p \in Paths}
        \cup {[c |-> "f", n |-> n, x |-> x, sz |-> z[1], h |-> z[2]] : n \in Names, x \in BOOLEAN,
              z \in {<<"0", <<>>>>, <<"7", <<Da>>>>, <<"8", <<Db, Da>>>>}}
        \cup {[c |-> "l", n |-> n, l |-> t] : n \in Names, t \in Names \cup {<<47>>, <<46, 46>>, <<97, 47>>}}
Bs == <<7>>
Confs == {<<ht, bs>> : ht \in HashTypes, bs \in {"1", "7", "32768", "18446744073709551615"}}

VARIABLES cmds, rows, cd, got
vars == <<cmds, rows, cd, got>>
\* got: what a reader makes of the rows; cd: its directory
Init == cmds = <<>> /\ rows = <<>> /\ cd = [ok |-> FALSE, p |-> <<>>, free |-> FALSE] /\ got = <<>>
Next == /\ Len(cmds) < MaxLen
        /\ \E c \in (IF cmds = <<>> THEN {x \in Cmds : x.c = "d"} ELSE Cmds) :
             LET row == CmdToks(c)
                 rs == Readings(row, cd, Bs)
                 r == CHOOSE x \in rs : TRUE
             IN  /\ cmds' = Append(cmds, c) /\ rows' = Append(rows, row)
                 /\ got' = Append(got, rs)
                 /\ cd' = IF c.c = "d" /\ r.o = "entry" THEN [ok |-> TRUE, p |-> r.e.p, free |-> FALSE] ELSE cd
Spec == Init /\ [][Next]_vars

Home_(i) == LET ds == {j \in 1..i : cmds[j].c = "d"} IN cmds[CHOOSE j \in ds : \A k \in ds : k <= j].p
Means(i) == LET c == cmds[i] IN
    CASE c.c = "d" -> [k |-> "d", p |-> c.p]
      [] c.c = "l" -> [k |-> "l", p |-> Append(Home_(i), c.n), l |-> c.l]
      [] c.c = "f" -> [k |-> "f", p |-> Append(Home_(i), c.n), x |-> c.x, sz |-> NumOf(c.sz), h |-> c.h]
ReadBack == \A i \in 1..Len(cmds) : got[i] = {Ent(Means(i))}
\* emitting what was read
Again(e) == CASE e.k = "d" -> [c |-> "d", p |-> e.p]
              [] e.k = "l" -> [c |-> "l", n |-> e.p[Len(e.p)], l |-> e.l]
              [] e.k = "f" -> [c |-> "f", n |-> e.p[Len(e.p)], x |-> e.x, sz |-> DecStr(e.sz), h |-> e.h]
SameAgain == \A i \in 1..Len(cmds) : \A r \in got[i] : CmdToks(Again(r.e)) = rows[i]
Headers == cmds = <<>> => \A k \in Confs : HeaderReadings(HeaderToks(k[1], k[2])) = {HOk(k[1], NumOf(k[2]))}
Footers == cmds = <<>> => FootReadings(<<Da>>) = {Foot} /\ FootReadings(<<Db>>) = {Foot}
\* lines do not contain what separates them
OneLine == \A i \in 1..Len(rows) : \A k \in 1..Len(rows[i]) : rows[i][k] = "" \/ AsciiClean(rows[i][k])
=============================================================================
