-------------------------------- MODULE Work --------------------------------
(* The work of a scan, and of a reader of an index: nothing is done twice, and *)
(* nothing before it is needed. A scan finds entries by listing directories    *)
(* and deals with each of them once, in any order its workers like; a reader   *)
(* reads lines through a buffer, as far as the calls made so far need them.    *)
EXTENDS Tree

CONSTANTS Overlays, Lines, Buffers

VARIABLES mode, ov, pending, reading, cnt, steps, lens, buf, given, at, failed
vars == <<mode, ov, pending, reading, cnt, steps, lens, buf, given, at, failed>>

\* a handle is <<number of the tree, path>>
RECURSIVE Below(_, _, _)
Below(i, p, nodes) ==
    UNION {{[h |-> <<i, Append(p, nodes[k].n)>>, t |-> nodes[k].t, b |-> IF nodes[k].t = "f" THEN Len(nodes[k].h) ELSE 0]}
           \cup (IF IsDir(nodes[k]) THEN Below(i, Append(p, nodes[k].n), nodes[k].c) ELSE {}) : k \in 1..Len(nodes)}
All(o) == UNION {{[h |-> <<i, <<>>>>, t |-> "d", b |-> 0]} \cup Below(i, <<>>, o[i]) : i \in 1..Len(o)}
Kids(n, all) == {m \in all : m.h[1] = n.h[1] /\ Len(m.h[2]) = Len(n.h[2]) + 1 /\ SubSeq(m.h[2], 1, Len(n.h[2])) = n.h[2]}
None == [opened |-> 0, listed |-> 0, blocks |-> 0, links |-> 0]

Init ==
    /\ mode \in {"scan", "read"} /\ failed = FALSE /\ steps = 0
    /\ IF mode = "scan"
       THEN /\ ov \in Overlays /\ lens = <<>> /\ buf = 0
            /\ pending = {n \in All(ov) : n.h[2] = <<>>} /\ cnt = [n \in All(ov) |-> None]
       ELSE /\ lens \in Lines /\ buf \in Buffers /\ ov = <<>> /\ pending = {} /\ cnt = <<>>
    /\ reading = {} /\ given = 0 /\ at = 0

\* ---- a scan
List(n) ==
    /\ n \in pending /\ n.t = "d" /\ ~failed
    /\ pending' = (pending \ {n}) \cup Kids(n, DOMAIN cnt)
    /\ cnt' = [cnt EXCEPT ![n].opened = @ + 1, ![n].listed = @ + 1]
    /\ steps' = steps + 1
    /\ UNCHANGED <<reading>>
Open(n) ==
    /\ n \in pending /\ n.t = "f" /\ ~failed
    /\ pending' = pending \ {n} /\ reading' = reading \cup {n}
    /\ cnt' = [cnt EXCEPT ![n].opened = @ + 1]
    /\ steps' = steps + 1
Block(n) ==
    /\ n \in reading /\ cnt[n].blocks < n.b
    /\ cnt' = [cnt EXCEPT ![n].blocks = @ + 1]
    /\ steps' = steps + 1
    /\ UNCHANGED <<pending, reading>>
Done(n) ==
    /\ n \in reading /\ cnt[n].blocks = n.b
    /\ reading' = reading \ {n}
    /\ UNCHANGED <<pending, cnt, steps>>
Link(n) ==
    /\ n \in pending /\ n.t = "s" /\ ~failed
    /\ pending' = pending \ {n}
    /\ cnt' = [cnt EXCEPT ![n].links = @ + 1]
    /\ steps' = steps + 1
    /\ UNCHANGED reading
\* sockets, FIFOs, devices: passed over
Other(n) ==
    /\ n \in pending /\ n.t = "o" /\ ~failed
    /\ pending' = pending \ {n}
    /\ UNCHANGED <<reading, cnt, steps>>
\* something cannot be read: nothing new is taken up
Fail == /\ ~failed /\ pending \cup reading # {} /\ failed' = TRUE
        /\ UNCHANGED <<pending, reading, cnt, steps>>
ScanStep ==
    /\ mode = "scan"
    /\ \/ \E n \in pending \cup reading :
            (List(n) \/ Open(n) \/ Block(n) \/ Done(n) \/ Link(n) \/ Other(n)) /\ UNCHANGED failed
       \/ Fail
    /\ UNCHANGED <<mode, ov, lens, buf, given, at>>

\* ---- a reader: lens are the lengths of the lines; at: how many have been needed
EndOf(k) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(lens, 1, k))
Total == EndOf(Len(lens))
\* what must have been read for the first k lines; one more line may be looked at
Need(k) == EndOf(IF k > Len(lens) THEN Len(lens) ELSE k)
Fill(g, upto) ==     \* whole buffers until there is enough
    IF g >= upto THEN g ELSE LET n == g + buf * ((upto - g + buf - 1) \div buf) IN IF n > Total THEN Total ELSE n
Ask(k) ==            \* k = at + 1: next; more: advance to a later line; at or before it: to one that is behind
    /\ at' = IF k > at THEN k ELSE at
    /\ given' = Fill(given, Need(at'))
ReadStep == /\ mode = "read" /\ at < Len(lens) /\ \E k \in 1..Len(lens) : Ask(k)
            /\ UNCHANGED <<mode, ov, pending, reading, cnt, steps, lens, buf, failed>>

Next == ScanStep \/ ReadStep
Spec == Init /\ [][Next]_vars /\ WF_vars(ScanStep)

OnceEach ==
    mode = "scan" => \A n \in DOMAIN cnt :
        /\ cnt[n].opened <= 1 /\ cnt[n].listed <= 1 /\ cnt[n].links <= 1 /\ cnt[n].blocks <= n.b
        /\ n.t = "d" => cnt[n].blocks = 0 /\ cnt[n].links = 0
        /\ n.t = "f" => cnt[n].listed = 0 /\ cnt[n].links = 0
        /\ n.t = "s" => cnt[n].opened = 0
        /\ n.t = "o" => cnt[n] = None
\* one step for each directory, file and link and one for each block, and no more
InProportion ==
    mode = "scan" => steps <= Cardinality({n \in DOMAIN cnt : n.t # "o"})
                              + FoldSet(LAMBDA n, a : a + n.b, 0, DOMAIN cnt)
AllDone == (mode = "scan" /\ pending = {} /\ reading = {} /\ ~failed) =>
    \A n \in DOMAIN cnt : CASE n.t = "d" -> cnt[n].listed = 1 [] n.t = "f" -> cnt[n].opened = 1 /\ cnt[n].blocks = n.b
                            [] n.t = "s" -> cnt[n].links = 1 [] OTHER -> TRUE
NoReadAhead == mode = "read" => given <= Total /\ (given > 0 => given < Need(at) + buf)
Ends == mode = "scan" => <>(reading = {} /\ (pending = {} \/ failed))
=============================================================================
