------------------------------ MODULE MCReader ------------------------------
(* All small indexes made of well-formed and malformed lines: the reader of    *)
(* the specification keeps its promises on them; printed for replay.          *)
EXTENDS Reader, IOUtils

Da == "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
Db == "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
DU == "0123456789ABCDEF0123456789abcdef0123456789abcdef0123456789abcdef"
Dg == "0123456789abcdef0123456789abcdeg0123456789abcdef0123456789abcdef"
Dn == "0123456789abcdef0123456789abcdef/123456789abcdef0123456789abcdef"
D63 == "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
D65 == D63 \o "aa"
D62 == "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
D128 == Da \o Da

Hd(ht, bs) == <<"DIRSIGNATURE.v1", ht, "block_size=" \o bs>>
Sha == "sha512/256"
Headers == {Hd(Sha, "2"), Hd("blake2b/256", "2"), Hd("blake3/256", "2"), Hd(Sha, "32768"), Hd(Sha, "1"),
            Hd(Sha, "18446744073709551615"), Hd(Sha, "0"), Hd(Sha, "00"), Hd(Sha, "18446744073709551616"), Hd(Sha, ""),
            Hd(Sha, "02"), Hd(Sha, "+2"), Hd(Sha, "-2"), Hd(Sha, "2x"), Hd(Sha, "0x2"), Hd(Sha, "2.0"), Hd(Sha, " 2"),
            Hd("sha512", "2"), Hd("SHA512/256", "2"), Hd("sha512/256x", "2"), Hd("sha512_256", "2"), Hd("", "2"), Hd("blake2b", "2"),
            Hd("blake2s/256", "2"), Hd("sha256", "2"), Hd("blake3", "2"), Hd("blake3/512", "2"),
            <<"DIRSIGNATURE.v2", Sha, "block_size=2">>, <<"DIRSIGNATURE.v11", Sha, "block_size=2">>,
            <<"DIRSIGNATURE.v1.0", Sha, "block_size=2">>, <<"DIRSIGNATURE.", Sha, "block_size=2">>,
            <<"DIRSIGNATURE", Sha, "block_size=2">>, <<"dirsignature.v1", Sha, "block_size=2">>, <<"DIRSIGNATURE.V1", Sha, "block_size=2">>,
            <<"XDIRSIGNATURE.v1", Sha, "block_size=2">>, <<"DIRSIGNATUREv1", Sha, "block_size=2">>, <<".v1", Sha, "block_size=2">>,
            <<"DIRSIGNATURE.v1", Sha>>, <<"DIRSIGNATURE.v1">>, <<"">>, <<"", "">>, <<"DIRSIGNATURE.v1", Sha, "">>,
            <<"DIRSIGNATURE.v1", Sha, "block_size">>, <<"DIRSIGNATURE.v1", Sha, "blocksize=2">>, <<"DIRSIGNATURE.v1", Sha, "block_size=2=3">>,
            <<"DIRSIGNATURE.v1", Sha, "Block_size=2">>, <<"DIRSIGNATURE.v1", Sha, "xblock_size=2">>,
            <<"DIRSIGNATURE.v1", "block_size=2", Sha>>, <<"DIRSIGNATURE.v1", Sha, "x", "block_size=2">>,
            <<"DIRSIGNATURE.v1", Sha, "block_size=2", "">>, <<"DIRSIGNATURE.v1", Sha, "block_size=2", "x=1">>,
            <<"", "DIRSIGNATURE.v1", Sha, "block_size=2">>, <<"DIRSIGNATURE.v1", "", Sha, "block_size=2">>,
            <<"DIRSIGNATURE.v1\t" \o Sha, "block_size=2">>, <<"DIRSIGNATURE.v1", Sha, "block_size=2\r">>, <<"/">>, <<Da>>}

E(n, rest) == <<"", "", n>> \o rest
Names == {"a", "\\x20", "a\\x2e", "\\x41", "a\\", "a\\x4", "\\xFF", "\\xff", ".a", "..a", "...", "a..", "~"}
BadNames == {"", ".", "..", "a/b", "/", "/a", "../a", "\\x2e", "\\x2e\\x2e", ".\\x2e", "a\\x2fb", "\\x2f", "..\\x2fa"}
Pool ==
    {<<"/">>, <<"/a">>, <<"/a/b">>, <<"/b">>, <<"/a/">>, <<"//a">>, <<"/a//b">>, <<"/./a">>, <<"/.">>, <<"/..">>, <<"/../a">>, <<"/a/..">>,
     <<"/a/../b">>, <<"/\\x2e\\x2e">>, <<"/a/\\x2e.">>, <<"/a\\x2f..">>, <<"/a\\x2fb">>, <<"/\\x41">>, <<"/\\xff">>, <<"/\\xFF">>, <<"/..a">>, <<"/...">>,
     <<"/a", "">>, <<"/a", "", "">>, <<"/a", "b">>, <<"/a", "f", "0">>, <<"">>, <<"", "">>, <<"", "/a">>, <<"a">>, <<"", "a", "f", "0">>,
     <<"", "", "">>, <<"", "", "", "a", "f", "0">>, <<"\ta", "f", "0">>, <<"", "\t", "a", "f", "0">>}
    \cup {E(n, <<"f", "0">>) : n \in Names \cup BadNames}
    \cup {E(n, <<"s", "t">>) : n \in BadNames \cup {"a", "\\x20"}}
    \cup {E("a", r) : r \in {
        <<"f", "1", Da>>, <<"x", "2", Db>>, <<"f", "3", Da, Db>>, <<"x", "4", Da, Da>>, <<"f", "5", Da, Db, Da>>,
        <<"x", "0">>, <<"f", "0", Da>>, <<"f", "1">>, <<"f", "2", Da, Db>>, <<"f", "3", Da>>, <<"f", "3", Da, Db, Da>>,
        <<"f", "">>, <<"f", "00">>, <<"f", "01", Da>>, <<"f", "+1", Da>>, <<"f", "-1", Da>>, <<"f", "-0">>, <<"f", "1.0", Da>>, <<"f", "1x", Da>>, <<"f", "0x1", Da>>,
        <<"f", "a">>, <<"f", "+">>, <<"f", "18446744073709551615", Da>>, <<"f", "18446744073709551616", Da>>, <<"f", "99999999999999999999999", Da>>,
        <<"f", "9223372036854775808">>, <<"f", "4294967296", Da>>, <<"f", "4294967296">>, <<"f", "4294967297", Da>>,
        <<"f", "1", D63>>, <<"f", "1", D65>>, <<"f", "1", D62>>, <<"f", "1", D128>>, <<"f", "1", Dg>>, <<"f", "1", Dn>>, <<"f", "1", DU>>, <<"f", "1", "">>,
        <<"f", "1", "", Da>>, <<"f", "1", Da, "">>, <<"f", "1", Da, "", "">>, <<"f", "3", Da, "", Db>>, <<"f", "3", Da, Dg>>, <<"f", "3", Da, D63>>,
        <<"f", "0", "">>, <<"f", "0", "", "">>, <<"f", "0", "x">>, <<"f", "", "0">>, <<"f">>, <<"x">>, <<"">>, <<>>, <<"", "f", "0">>,
        <<"F", "0">>, <<"d", "0">>, <<"ff", "0">>, <<"fx", "0">>, <<"X", "0">>, <<"l", "t">>, <<"S", "t">>, <<"0", "f">>,
        <<"s", "t">>, <<"s", "/t">>, <<"s", "..">>, <<"s", "../../x">>, <<"s", "\\x2f">>, <<"s", "\\x20">>, <<"s", "\\xFF">>, <<"s">>, <<"s", "">>, <<"s", "", "">>,
        <<"s", "t", "">>, <<"s", "t", "", "">>, <<"s", "t", "u">>, <<"s", "", "t">>, <<"s", "t", Da>>}}
    \cup {<<Da>>, <<DU>>, <<Dg>>, <<D63>>, <<D65>>, <<D128>>, <<D62>>, <<Da, "">>, <<Da, "", "">>, <<Da, "x">>, <<Da, Db>>, <<"", Da>>, <<"", "", Da>>, <<"x" \o D63>>,
          <<"DIRSIGNATURE.v1", Sha, "block_size=2">>}
Few == {<<"/">>, <<"/b">>, E("b", <<"f", "1", Db>>), E("b", <<"s", "t">>), E("..", <<"f", "0">>), <<"/b", "x">>, <<"zz">>, <<"">>, <<Db>>}

\* ways to end
Ends == {[tail |-> <<<<Da>>>>, part |-> FALSE], [tail |-> <<>>, part |-> FALSE], [tail |-> <<>>, part |-> TRUE],
         [tail |-> <<<<Da>>>>, part |-> TRUE], [tail |-> <<<<Da>>, <<"/b">>>>, part |-> FALSE], [tail |-> <<<<Da>>, <<"">>>>, part |-> FALSE],
         [tail |-> <<<<Da>>, <<Db>>>>, part |-> FALSE]}
H1 == Hd(Sha, "2")
Deep == IOEnv.DSV_DEEP = "1"
Inp(lines, part, fail) == [lines |-> lines, part |-> part, fail |-> fail]
Bodies1 == {<<>>} \cup {<<x>> : x \in Pool} \cup {<<<<"/">>, x>> : x \in Pool}
Bodies2 == {<<<<"/">>, x, y>> : x \in Pool, y \in IF Deep THEN Pool ELSE Few} \cup {<<x, y>> : x \in Few, y \in Few}
Inputs == {Inp(<<H1>> \o b \o e.tail, e.part, f) : b \in Bodies1, e \in Ends, f \in {FALSE}}
          \cup {Inp(<<H1>> \o b \o e.tail, e.part, TRUE) : b \in {<<>>} \cup {<<<<"/">>, x>> : x \in Few}, e \in Ends}
          \cup {Inp(<<H1>> \o b \o <<<<Da>>>>, FALSE, FALSE) : b \in Bodies2}
          \cup {Inp(<<h, <<"/">>, E("a", <<"f", "3", Da, Db>>), E("b", <<"f", "2", Da>>), E("c", <<"f", "0">>), <<Da>>>>, FALSE, FALSE) : h \in Headers}
          \cup {Inp(<<h>>, p, FALSE) : h \in Headers, p \in {TRUE, FALSE}}
          \cup {Inp(<<>>, p, f) : p \in {TRUE, FALSE}, f \in {TRUE, FALSE}}

VARIABLES inp, h, s, got, n
vars == <<inp, h, s, got, n>>
None == [o |-> "closed"]
Init == inp \in Inputs /\ h = None /\ s = Start /\ got = <<>> /\ n = 0
OpenIt == h = None /\ h' \in OpenReadings(inp) /\ UNCHANGED <<inp, s, got, n>>
NextIt == /\ h.o = "ok" /\ n <= Len(inp.lines) + 2
          /\ \E x \in Take(inp, h.bs, s) : s' = x.s /\ got' = Append(got, x.r)
          /\ n' = n + 1 /\ UNCHANGED <<inp, h>>
Spec == Init /\ [][OpenIt \/ NextIt]_vars

-----------------------------------------------------------------------------
Total == (h = None => OpenReadings(inp) # {}) /\ (h.o = "ok" => Take(inp, h.bs, s) # {})
EndsInTime == n > Len(inp.lines) + 1 => got[Len(got)] = RNone
EndsForGood == \A i \in 1..Len(got) - 1 : got[i] = RNone => got[i + 1] = RNone
InsideTree ==
    \A i \in 1..Len(got) : got[i].o = "entry" =>
        /\ DotDot \notin Range(got[i].e.p)
        /\ got[i].e.k # "d" =>
             \E j \in 1..i - 1 : /\ got[j].o = "entry" /\ got[j].e.k = "d" /\ got[j].e.p = Parent(got[i].e.p)
                                 /\ \A m \in j + 1..i - 1 : got[m].o = "entry" => got[m].e.k # "d"
Errors(g) == {i \in 1..Len(g) : g[i].o = "err"}
CleanEnd(g) == Len(g) > 0 /\ g[Len(g)] = RNone /\ Errors(g) = {}
\* no error before the end: the input was whole
WholeOnly == CleanEnd(got) /\ ~inp.fail =>
               /\ ~inp.part /\ IsDigest(inp.lines[Len(inp.lines)][1])
               /\ \A i \in 2..Len(inp.lines) - 1 : IsDirLine(inp.lines[i]) \/ IsEntryLine(inp.lines[i])
\* the i-th result before the end is about line i + 1
LineByLine == \A i \in 1..Len(got) : got[i].o = "err" /\ got[i].hi > 0 => got[i].lo = i + 1
Entries(g) == SelectSeq(g, LAMBDA r : r.o = "entry")
NothingInvented == Len(Entries(got)) <= Cardinality({i \in 2..Len(inp.lines) : IsDirLine(inp.lines[i]) \/ IsEntryLine(inp.lines[i])})

\* printing for replay
Gen(x) == \A i \in Inputs : PrintT("@@" \o ToJson([lines |-> i.lines, part |-> i.part, fail |-> i.fail, x |-> x]))
GenInit == inp = <<>> /\ h = None /\ s = Start /\ got = <<>> /\ n = 0
GenSpec == GenInit /\ [][n = 0 /\ Gen(n) /\ n' = 1 /\ UNCHANGED <<inp, h, s, got>>]_vars
=============================================================================
