------------------------------ MODULE Progress ------------------------------
(* What is told of a scan while it runs and at its end. Counts are            *)
(* <<directories, files, links>>.                                             *)
EXTENDS Integers, Sequences, SequencesExt

CountsOf(k) == CASE k = "d" -> <<1, 0, 0>> [] k = "f" -> <<0, 1, 0>> [] k = "s" -> <<0, 0, 1>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
AtMost(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ a[3] <= b[3]
\* the counts after each entry of an index (of the kinds given, in order), before the first too
Points(kinds) == FoldLeft(LAMBDA ps, k : Append(ps, Plus(ps[Len(ps)], CountsOf(k))), <<<<0, 0, 0>>>>, kinds)
Total(kinds) == Points(kinds)[Len(kinds) + 1]

\* lines told, [done, n |-> counts], of a scan of entries of these kinds
Truthful(lines, kinds) ==
    LET ps == Range(Points(kinds)) IN
    \A i \in 1..Len(lines) : lines[i].n \in ps /\ (lines[i].done => lines[i].n = Total(kinds))
Forward(lines) == \A i \in 2..Len(lines) : AtMost(lines[i - 1].n, lines[i].n)
\* the end is told once, at the end, of a scan that succeeded
EndToldWell(lines, ok) ==
    /\ \A i \in 1..Len(lines) : lines[i].done => i = Len(lines)
    /\ ok <=> (lines # <<>> /\ lines[Len(lines)].done)
=============================================================================
