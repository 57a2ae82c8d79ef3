------------------------------- MODULE Reader -------------------------------
(* Reading an index. inp describes the bytes:                                 *)
(*   lines   the complete lines, as tokens; the first is the header           *)
(*   part    more bytes follow the last newline                               *)
(*   fail    reading fails behind these bytes                                 *)
(* A state of a reader is [pos, cd, end]; every operation has a set of        *)
(* allowed results with their next states.                                    *)
EXTENDS Grammar

NoDir == [ok |-> FALSE, p |-> <<>>, free |-> FALSE]
Start == [pos |-> 2, cd |-> NoDir, end |-> FALSE]

REntry(e) == [o |-> "entry", e |-> e]
RErr(lo, hi) == [o |-> "err", lo |-> lo, hi |-> hi]       \* names a line in lo..hi; hi = 0: no line is required
RNone == [o |-> "none"]
Res(r, s) == [r |-> r, s |-> s]

\* opening
OpenReadings(inp) ==
    IF Len(inp.lines) = 0 THEN {HErr}
    ELSE HeaderReadings(inp.lines[1])

Ended(s) == [s EXCEPT !.end = TRUE]
\* consuming the next line
Take(inp, bs, s) ==
    LET NL == Len(inp.lines) IN
    IF s.end THEN {Res(RNone, s)}
    ELSE IF s.pos > NL
    THEN {Res(IF inp.fail THEN RErr(0, 0) ELSE RErr(s.pos, s.pos), Ended(s))}
    ELSE LET toks == inp.lines[s.pos]
             next == [s EXCEPT !.pos = @ + 1]
             one(rd) ==
                 CASE rd.o = "entry" ->
                        {Res(REntry(rd.e), IF rd.e.k = "d" THEN [next EXCEPT !.cd = [ok |-> TRUE, p |-> rd.e.p, free |-> FALSE]]
                                           ELSE next)}
                   [] rd.o = "err" ->
                        {Res(RErr(s.pos, s.pos), IF IsDirLine(toks) THEN [next EXCEPT !.cd.free = TRUE] ELSE next)}
                   [] rd.o = "foot" ->
                        IF s.pos = NL /\ ~inp.part
                        THEN IF inp.fail THEN {Res(RErr(0, 0), Ended(s)), Res(RNone, Ended(s))} ELSE {Res(RNone, Ended(s))}
                        ELSE {Res(RErr(s.pos, s.pos + 1), Ended(s))}
         IN  UNION {one(rd) : rd \in Readings(toks, s.cd, bs)}

\* seeking an entry of kind k. acc: the states in which the reader may still be looking, and what it
\* may have arrived at
SeekOn(inp, bs, k, acc) ==
    IF acc.open = {} THEN acc
    ELSE LET all == UNION {{[x |-> x, from |-> s] : x \in Take(inp, bs, s)} : s \in acc.open}
             cmp(y) == IF y.x.r.o = "entry" THEN Cmp(KindOf(y.x.r.e), k) ELSE 0
         IN  [open |-> {y.x.s : y \in {z \in all : cmp(z) < 0}},
              done |-> acc.done \cup {IF cmp(y) = 0 THEN y.x ELSE Res(RNone, y.from) : y \in {z \in all : cmp(z) >= 0}}]
Seek(inp, bs, s, k) ==
    LET lines == [i \in 1..64 |-> i]
        some(acc, b) == IF acc.open = {} THEN acc
                        ELSE FoldLeft(LAMBDA x, i : SeekOn(inp, bs, k, x), acc, lines)
    IN  FoldLeft(some, [open |-> {s}, done |-> {}], [b \in 1..((Len(inp.lines) - s.pos + 2) \div 64 + 1) |-> b]).done
=============================================================================
