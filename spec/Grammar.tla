------------------------------- MODULE Grammar -------------------------------
(* What the lines of an index mean. For each line the set of allowed readings *)
(* is given: exactly one for well-formed lines and for violations of the      *)
(* format, and several where a reader may be lenient or strict (upper-case    *)
(* digits, a single trailing space, a sign or leading zeros, unescaped or     *)
(* unnecessarily escaped bytes in names).                                     *)
EXTENDS Order, Num

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
AfterPrefix(s, n) == SubSeq(s, n + 1, Len(s))

\* ---- numbers
CanonicalDec(s) == IsDigits(s) /\ (Len(s) > 1 => SubSeq(s, 1, 1) # "0") /\ FitsU64(NumOf(s))
Unsigned(s) == IF StartsWith(s, "+") THEN AfterPrefix(s, 1) ELSE s
LenientDec(s) == IsDigits(Unsigned(s)) /\ FitsU64(NumOf(Unsigned(s)))
DecValue(s) == NumOf(Unsigned(s))

\* ---- digests
IsDigest(s) == Len(s) = DigestChars /\ \A i \in 1..Len(s) : IsHex(Code[SubSeq(s, i, i)])
IsLowerDigest(s) == Len(s) = DigestChars /\ \A i \in 1..Len(s) : IsLowerHex(Code[SubSeq(s, i, i)])
LowerStr(s) == FoldLeft(LAMBDA a, b : a \o Chr[IF b \in 65..90 THEN b + 32 ELSE b], "", Bytes(s))

\* ---- paths: byte string -> components (a path does not distinguish // or /./ from /)
Cut(bs) == LET r == FoldLeft(LAMBDA a, b : IF b = 47 THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                           ELSE [done |-> a.done, cur |-> Append(a.cur, b)],
                             [done |-> <<>>, cur |-> <<>>], bs)
           IN  Append(r.done, r.cur)
PathComps(bs) == SelectSeq(Cut(bs), LAMBDA c : c # <<>> /\ c # <<46>>)
DotDot == <<46, 46>>

\* ---- header
\* words at any ASCII white space
WordCut(bs) == LET r == FoldLeft(LAMBDA a, b : IF b \in {9, 10, 11, 12, 13, 32} THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                               ELSE [done |-> a.done, cur |-> Append(a.cur, b)],
                                 [done |-> <<>>, cur |-> <<>>], bs)
               IN  SelectSeq(Append(r.done, r.cur), LAMBDA c : c # <<>>)
BsKey == "block_size="
GoodBs(s) == StartsWith(s, BsKey) /\ LenientDec(AfterPrefix(s, Len(BsKey))) /\ DecValue(AfterPrefix(s, Len(BsKey))) # Zero
HErr == [o |-> "err"]
HOk(ht, d) == [o |-> "ok", ht |-> ht, bs |-> d]
HeaderReadings(toks) ==
    LET canonical == /\ Len(toks) = 3 /\ toks[1] = "DIRSIGNATURE.v1" /\ toks[2] \in HashTypes /\ GoodBs(toks[3])
                     /\ CanonicalDec(AfterPrefix(toks[3], Len(BsKey)))
        bytes == Bytes(LineStr(toks))
        words == [i \in 1..Len(WordCut(bytes)) |-> Raw(WordCut(bytes)[i])]
        good == Len(words) >= 3 /\ words[1] = "DIRSIGNATURE.v1" /\ words[2] \in HashTypes /\ GoodBs(words[3])
    IN  IF canonical THEN {HOk(toks[2], DecValue(AfterPrefix(toks[3], Len(BsKey))))}
        ELSE IF good THEN {HErr, HOk(words[2], DecValue(AfterPrefix(words[3], Len(BsKey))))}
        ELSE {HErr}

\* ---- body lines. cd: [ok, p, free]: the directory whose line precedes; free: that line was
\* malformed, so a reader may refuse what stands under it
Err == [o |-> "err"]
Foot == [o |-> "foot"]
Ent(e) == [o |-> "entry", e |-> e]

Clean(s) == AsciiClean(s) /\ CanonicalToken(s) /\ \A b \in Range(Unescape(s)) : b # 0

DirReadings(toks) ==
    LET bytes == Unescape(toks[1])
        comps == PathComps(bytes)
        bad == Len(toks) > 2 \/ (Len(toks) = 2 /\ toks[2] # "") \/ DotDot \in Range(comps)
        canonical == Len(toks) = 1 /\ Clean(toks[1]) /\ EscPath(comps) = toks[1]
        entry == Ent([k |-> "d", p |-> comps])
    IN  IF bad THEN {Err} ELSE IF canonical THEN {entry} ELSE {entry, Err}

EntryReadings(toks0, cd, bs) ==
    LET trail == Len(toks0) > 5 /\ toks0[Len(toks0)] = ""
        toks == IF trail THEN SubSeq(toks0, 1, Len(toks0) - 1) ELSE toks0
    IN
    IF ~cd.ok \/ Len(toks) < 5 THEN {Err}
    ELSE LET name == Unescape(toks[3])
             digs == SubSeq(toks, 6, Len(toks))
             badname == name \in {<<>>, <<46>>, DotDot} \/ 47 \in Range(name)
             path == Append(cd.p, name)
             cleanname == Clean(toks[3])
         IN
         IF badname \/ toks[4] \notin {"f", "x", "s"} THEN {Err}
         ELSE IF toks[4] = "s"
         THEN IF Len(toks) > 5 \/ toks[5] = "" THEN {Err}
              ELSE LET e == Ent([k |-> "l", p |-> path, l |-> Unescape(toks[5])]) IN
                   IF ~trail /\ cleanname /\ Clean(toks[5]) /\ ~cd.free THEN {e} ELSE {e, Err}
         ELSE IF ~LenientDec(toks[5]) \/ ~(\A i \in 1..Len(digs) : IsDigest(digs[i]))
                 \/ ~NumBlocksIs(DecValue(toks[5]), bs, Len(digs)) THEN {Err}
              ELSE LET e == Ent([k |-> "f", p |-> path, x |-> toks[4] = "x", sz |-> DecValue(toks[5]),
                                 h |-> [i \in 1..Len(digs) |-> LowerStr(digs[i])]]) IN
                   IF /\ ~trail /\ cleanname /\ CanonicalDec(toks[5]) /\ ~cd.free
                      /\ \A i \in 1..Len(digs) : IsLowerDigest(digs[i])
                   THEN {e} ELSE {e, Err}

FootReadings(toks) ==
    IF Len(toks) = 1 /\ IsLowerDigest(toks[1]) THEN {Foot}
    ELSE IF IsDigest(toks[1]) /\ (Len(toks) = 1 \/ (Len(toks) = 2 /\ toks[2] = "")) THEN {Foot, Err}
    ELSE {Err}

IsDirLine(toks) == StartsWith(toks[1], "/")
IsEntryLine(toks) == Len(toks) >= 3 /\ toks[1] = "" /\ toks[2] = ""
Readings(toks, cd, bs) ==
    IF IsDirLine(toks) THEN DirReadings(toks)
    ELSE IF IsEntryLine(toks) THEN EntryReadings(toks, cd, bs)
    ELSE FootReadings(toks)

KindOf(e) == IF e.k = "d" THEN Dir(e.p) ELSE File(e.p)
=============================================================================
