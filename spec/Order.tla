-------------------------------- MODULE Order --------------------------------
(* The order of names, paths and entries.                                     *)
EXTENDS Format

RECURSIVE BytesLtFrom(_, _, _)
BytesLtFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] < b[i] THEN TRUE
    ELSE IF a[i] > b[i] THEN FALSE
    ELSE BytesLtFrom(a, b, i + 1)
BytesLt(a, b) == BytesLtFrom(a, b, 1)

\* component by component
RECURSIVE PathCmpFrom(_, _, _)
PathCmpFrom(p, q, i) ==
    IF i > Len(p) /\ i > Len(q) THEN 0
    ELSE IF i > Len(p) THEN -1
    ELSE IF i > Len(q) THEN 1
    ELSE IF p[i] = q[i] THEN PathCmpFrom(p, q, i + 1)
    ELSE IF BytesLt(p[i], q[i]) THEN -1 ELSE 1
PathCmp(p, q) == PathCmpFrom(p, q, 1)

\* an entry kind: directory or file (symlinks are files here) at an absolute path
Dir(p) == [k |-> "d", p |-> p]
File(p) == [k |-> "f", p |-> p]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Home(e) == IF e.k = "d" THEN e.p ELSE Parent(e.p)     \* the directory under whose line it stands

\* -1, 0, 1: as they appear in an index
Cmp(e, f) ==
    LET h == PathCmp(Home(e), Home(f)) IN
    IF h /= 0 THEN h
    ELSE IF e.k = "d" /\ f.k = "d" THEN 0
    ELSE IF e.k = "d" THEN -1
    ELSE IF f.k = "d" THEN 1
    ELSE IF e.p[Len(e.p)] = f.p[Len(f.p)] THEN 0
    ELSE IF BytesLt(e.p[Len(e.p)], f.p[Len(f.p)]) THEN -1 ELSE 1
Lt(e, f) == Cmp(e, f) < 0
=============================================================================
