------------------------------- MODULE Format -------------------------------
(* Names and lines of an index, format v1. A name is a sequence of bytes; a   *)
(* line is a sequence of tokens (strings), the pieces between single spaces.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

\* the 256 byte values as one-character strings
Tab == JsonDeserialize("chars.json").tab
Chr == [b \in 0..255 |-> SubSeq(Tab, b + 1, b + 1)]
Code == [c \in {Chr[b] : b \in 0..255} |-> CHOOSE b \in 0..255 : Chr[b] = c]

HexDigits == "0123456789abcdef"
Hex == [d \in 0..15 |-> SubSeq(HexDigits, d + 1, d + 1)]

\* bytes that cannot stand for themselves
Special(b) == b <= 32 \/ b >= 127 \/ b = 92
EscTab == [b \in 0..255 |-> IF Special(b) THEN "\\x" \o Hex[b \div 16] \o Hex[b % 16] ELSE Chr[b]]

\* by halves: TLC keeps every string it makes
RECURSIVE ConcatIn(_, _, _)
ConcatIn(strs, a, b) ==
    IF a > b THEN "" ELSE IF a = b THEN strs[a]
    ELSE LET m == (a + b) \div 2 IN ConcatIn(strs, a, m) \o ConcatIn(strs, m + 1, b)
Concat(strs) == ConcatIn(strs, 1, Len(strs))
Escape(bs) == Concat([i \in 1..Len(bs) |-> EscTab[bs[i]]])
Raw(bs) == Concat([i \in 1..Len(bs) |-> Chr[bs[i]]])
Bytes(str) == [i \in 1..Len(str) |-> Code[SubSeq(str, i, i)]]

HexVal(b) == CASE b >= 48 /\ b <= 57 -> b - 48
               [] b >= 97 /\ b <= 102 -> b - 87
               [] b >= 65 /\ b <= 70 -> b - 55
               [] OTHER -> -1
IsHex(b) == HexVal(b) >= 0
IsLowerHex(b) == IsHex(b) /\ ~(b >= 65 /\ b <= 70)

\* reading a name back (bytes of the escaped text -> bytes of the name)
EscAt(t, i) == i + 3 <= Len(t) /\ t[i] = 92 /\ t[i + 1] = 120 /\ IsHex(t[i + 2]) /\ IsHex(t[i + 3])
RECURSIVE UnescFrom(_, _, _)
UnescFrom(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF EscAt(t, i) THEN UnescFrom(t, i + 4, Append(acc, HexVal(t[i + 2]) * 16 + HexVal(t[i + 3])))
    ELSE UnescFrom(t, i + 1, Append(acc, t[i]))
UnescapeSlow(str) == UnescFrom(Bytes(str), 1, <<>>)
\* the same without recursion (escapes do not overlap): MCEscape compares the two
Unescape(str) ==
    LET t == TLCEval(Bytes(str)) IN
    IF \A i \in 1..Len(t) : t[i] # 92 THEN t
    ELSE LET ix == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : \A k \in 1..3 : i > k => ~EscAt(t, i - k))
         IN  TLCEval([j \in 1..Len(ix) |-> IF EscAt(t, ix[j]) THEN HexVal(t[ix[j] + 2]) * 16 + HexVal(t[ix[j] + 3])
                                           ELSE t[ix[j]]])

\* an escaped text is canonical if it is what Escape makes of the name it denotes
CanonicalSlow(str) == Escape(Unescape(str)) = str
\* the same again
CanonicalToken(str) ==
    LET t == TLCEval(Bytes(str)) IN
    \A i \in 1..Len(t) :
        IF t[i] = 92 THEN /\ EscAt(t, i) /\ IsLowerHex(t[i + 2]) /\ IsLowerHex(t[i + 3])
                          /\ Special(HexVal(t[i + 2]) * 16 + HexVal(t[i + 3]))
        ELSE ~Special(t[i])
\* printable ASCII without space
AsciiClean(str) == \A i \in 1..Len(str) : Code[SubSeq(str, i, i)] \in 33..126

Join(toks, sep) == IF toks = <<>> THEN ""
                   ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, toks[1], Tail(toks))
LineStr(toks) == Join(toks, " ")

\* paths: sequences of names
EscPath(p) == IF p = <<>> THEN "/" ELSE FoldLeft(LAMBDA a, n : a \o "/" \o Escape(n), "", p)
RawPath(p) == IF p = <<>> THEN "/" ELSE FoldLeft(LAMBDA a, n : a \o "/" \o Raw(n), "", p)

HeaderToks(ht, bs) == <<"DIRSIGNATURE.v1", ht, "block_size=" \o bs>>
HashTypes == {"sha512/256", "blake2b/256", "blake3/256"}
DigestChars == 64

DirToks(p) == <<EscPath(p)>>
FileToks(name, exe, size, digs) == <<"", "", Escape(name), IF exe THEN "x" ELSE "f", size>> \o digs
LinkToks(name, target) == <<"", "", Escape(name), "s", Escape(target)>>
=============================================================================
