------------------------------ MODULE MCEscape ------------------------------
(* Escaping and reading back, for all names over a critical alphabet up to a  *)
(* length, and for all single bytes and pairs of bytes.                       *)
EXTENDS Grammar, IOUtils

Alpha == {92, 120, 53, 99, 97, 32, 255, 10, 127, 126, 33}
MaxLen == atoi(IOEnv.DSV_LEN)
VARIABLE s
Init == s \in {<<>>} \cup {<<a, b>> : a \in 0..255, b \in {0, 32, 47, 92, 120, 127, 128}}
Next == Len(s) < MaxLen /\ Range(s) \subseteq Alpha /\ \E b \in Alpha : s' = Append(s, b)
Spec == Init /\ [][Next]_s

E == Escape(s)
RoundTrip == Unescape(E) = s
Ascii == AsciiClean(E)
Canonical == CanonicalToken(E)
\* the readings of a text without recursion are those with it
Fast == \A t \in {E, Raw(s)} : Unescape(t) = UnescapeSlow(t) /\ (CanonicalToken(t) <=> CanonicalSlow(t))
\* as a name and as a target in a line, it is read as itself and as nothing else
Valid == s # <<>> /\ 0 \notin Range(s) /\ 47 \notin Range(s)
CdRoot == [ok |-> TRUE, p |-> <<>>, free |-> FALSE]
AsName == Valid => EntryReadings(FileToks(s, FALSE, "0", <<>>), CdRoot, <<7>>)
                   = {Ent([k |-> "f", p |-> <<s>>, x |-> FALSE, sz |-> Zero, h |-> <<>>])}
AsTarget == Valid => EntryReadings(LinkToks(<<97>>, s), CdRoot, <<7>>)
                     = {Ent([k |-> "l", p |-> <<<<97>>>>, l |-> s])}
AsDir == Valid => DirReadings(DirToks(<<s, s>>)) = {Ent([k |-> "d", p |-> <<s, s>>])}
=============================================================================
