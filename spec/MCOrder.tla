------------------------------- MODULE MCOrder -------------------------------
(* The order of entries is a strict total order, and the one in which Tree    *)
(* lists them; over all kinds at paths up to depth 3 of some names.           *)
EXTENDS Tree
VARIABLES a, b
NS == {<<97>>, <<97, 33>>, <<97, 98>>, <<255>>}
Paths == {<<>>} \cup {<<x>> : x \in NS} \cup {<<x, y>> : x, y \in NS} \cup {<<x, y, z>> : x \in {<<97>>, <<97, 33>>}, y, z \in NS}
Kinds == {Dir(p) : p \in Paths} \cup {File(p) : p \in Paths \ {<<>>}}
Few == {k \in Kinds : Len(k.p) <= 2}
Init == a \in Kinds /\ b = a
Next == b = a /\ b' \in Kinds /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
Antisymmetric == Cmp(a, b) = -Cmp(b, a)
EqualOnlySame == Cmp(a, b) = 0 <=> a = b
Total == Cmp(a, b) \in {-1, 0, 1}
Transitive == Lt(a, b) => \A c \in Few : Lt(b, c) => Lt(a, c)
\* as the property puts it
DirBeforeItsFiles == a.k = "d" /\ b.k = "f" /\ Parent(b.p) = a.p => Lt(a, b)
FilesBeforeSubdirs == a.k = "f" /\ b.k = "d" /\ b.p # <<>> /\ Parent(b.p) = Parent(a.p) => Lt(a, b)
ParentBeforeAll == a.k = "d" /\ Len(a.p) < Len(b.p) /\ SubSeq(b.p, 1, Len(a.p)) = a.p => Lt(a, b)
SiblingsBytewise == a.k = b.k /\ a.p # <<>> /\ b.p # <<>> /\ Parent(a.p) = Parent(b.p) =>
                       (Lt(a, b) <=> BytesLt(a.p[Len(a.p)], b.p[Len(b.p)]))
=============================================================================
