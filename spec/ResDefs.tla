------------------------------ MODULE ResDefs ------------------------------
(* What a scan may hold on to, as a function of the trees and the settings.    *)
(* A tree is a sequence of nodes with fields t ("d" with children c, ...) and, *)
(* where entries are counted, b: the length of the name, and k: how many       *)
(* siblings like it there are.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

MaxOf(S) == IF S = {} THEN 0 ELSE Max(S)

\* nesting of directories; a directory without any is 0
RECURSIVE Depth(_)
Depth(nodes) == MaxOf({1 + Depth(nodes[i].c) : i \in {j \in 1..Len(nodes) : nodes[j].t = "d"}})
DepthAll(ov) == MaxOf({Depth(ov[i]) : i \in 1..Len(ov)})

\* descriptors: the added directories; of the directories on the way down to the one being listed, one
\* for each tree; one for listing; those of the queued entries (the queue and the one being added);
\* for each worker a file and its directory
FdBound(trees, depth, limit, workers) ==
    IF workers = 0 THEN trees * (depth + 2) + 2
    ELSE trees * (depth + 2) + 1 + (limit + 2) + 2 * workers

\* entries remembered: the siblings along one way down. Each costs base, and per for every byte of its
\* name and, if it is a directory, of its whole path
Weight(n, above, base, per) == base + per * (n.b + (IF n.t = "d" THEN above ELSE 0))
RECURSIVE Chain(_, _, _, _)
Chain(nodes, above, base, per) ==
    FoldSeq(LAMBDA n, a : n.k * Weight(n, above, base, per) + a, 0, nodes)
    + MaxOf({Chain(nodes[i].c, above + 1 + nodes[i].b, base, per) : i \in {j \in 1..Len(nodes) : nodes[j].t = "d"}})
ChainAll(ov, base, per) == FoldSeq(LAMBDA t, a : Chain(t, 0, base, per) + a, 0, ov)
=============================================================================
