------------------------------- MODULE GetHash -------------------------------
(* Reading the stored hash. inp: [lines, part]: the complete lines as tokens, *)
(* and whether bytes follow the last newline. The allowed answers:            *)
(* [o |-> "hash", h] or [o |-> "err"].                                        *)
EXTENDS Grammar

GErr == [o |-> "err"]
GHash(h) == [o |-> "hash", h |-> h]
LastLine(inp) == inp.lines[Len(inp.lines)]
\* the signature and the hash type, which tells how long the footer is
Supported(toks) == Len(toks) >= 3 /\ toks[1] = "DIRSIGNATURE.v1" /\ toks[2] \in HashTypes
CanonicalHeader(toks) == /\ Supported(toks) /\ Len(toks) = 3 /\ GoodBs(toks[3]) /\ CanonicalDec(AfterPrefix(toks[3], Len(BsKey)))
Complete(inp) ==
    /\ ~inp.part /\ Len(inp.lines) >= 2
    /\ CanonicalHeader(inp.lines[1])
    /\ \A i \in 2..Len(inp.lines) - 1 : IsDirLine(inp.lines[i]) \/ IsEntryLine(inp.lines[i])
    /\ Len(LastLine(inp)) = 1 /\ IsLowerDigest(LastLine(inp)[1])
Hopeless(inp) ==
    \/ inp.part \/ Len(inp.lines) < 2
    \/ \A h \in HeaderReadings(inp.lines[1]) : h.o = "err" /\ ~Supported(inp.lines[1])
    \/ ~(Len(LastLine(inp)) = 1 /\ IsDigest(LastLine(inp)[1]))
Answers(inp) ==
    IF Complete(inp) THEN {GHash(LastLine(inp)[1])}
    ELSE IF Hopeless(inp) THEN {GErr}
    ELSE {GErr, GHash(LowerStr(LastLine(inp)[1]))}
=============================================================================
