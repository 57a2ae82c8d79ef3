-------------------------------- MODULE Tree --------------------------------
(* What an index of a tree is. A node is a record                             *)
(*   [n |-> name, t |-> "d", c |-> children]                                  *)
(*   [n |-> name, t |-> "f", x |-> owner-executable, sz |-> size in decimal,  *)
(*    h |-> digests of its blocks]                                            *)
(*   [n |-> name, t |-> "s", l |-> target]                                    *)
(*   [n |-> name, t |-> "o"]        anything else: socket, FIFO, device       *)
(* An overlay is a sequence of trees (of the children of their roots).        *)
EXTENDS Order, Num

Flat(seqs) == FoldLeft(LAMBDA a, s : a \o s, <<>>, seqs)
\* stable: nodes of equal name stay in the order given
InOrder(nodes) == \A i \in 2..Len(nodes) : ~BytesLt(nodes[i].n, nodes[i - 1].n)
SortByName(nodes) ==
    IF InOrder(nodes) THEN nodes
    ELSE LET ix == SortSeq([i \in 1..Len(nodes) |-> i],
                           LAMBDA i, j : BytesLt(nodes[i].n, nodes[j].n) \/ (nodes[i].n = nodes[j].n /\ i < j))
         IN  [k \in 1..Len(nodes) |-> nodes[ix[k]]]
\* where in a list in order each name begins
Begins(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ s[i].n # s[i - 1].n)

IsEntry(n) == n.t \in {"f", "s"}
IsDir(n) == n.t = "d"

\* the entries of an overlay in index order: <<[k |-> "d", p], [k |-> "f", p, node]...>>
RECURSIVE EntriesAt(_, _)
EntriesAt(path, lists) ==
    LET all == Flat(lists)
        files == SortByName(SelectSeq(all, IsEntry))
        dirs == TLCEval(SortByName(SelectSeq(all, IsDir)))
        at == TLCEval(Begins(dirs))
        \* the directories of the i-th name
        kids(i) == LET z == IF i = Len(at) THEN Len(dirs) ELSE at[i + 1] - 1
                   IN  [j \in 1..(z - at[i] + 1) |-> dirs[at[i] + j - 1].c]
    IN  <<[k |-> "d", p |-> path]>>
        \o [i \in 1..Len(files) |-> [k |-> "f", p |-> Append(path, files[i].n), node |-> files[i]]]
        \o Flat([i \in 1..Len(at) |-> EntriesAt(Append(path, dirs[at[i]].n), kids(i))])
Entries(overlay) == EntriesAt(<<>>, overlay)

EntryToks(e) ==
    IF e.k = "d" THEN DirToks(e.p)
    ELSE IF e.node.t = "s" THEN LinkToks(e.node.n, e.node.l)
    ELSE FileToks(e.node.n, e.node.x, e.node.sz, e.node.h)

\* the lines between header and footer
BodyToks(entries) == [i \in 1..Len(entries) |-> EntryToks(entries[i])]
\* ... as text
BodyStr(entries) == Concat([i \in 1..Len(entries) |-> LineStr(EntryToks(entries[i])) \o "\n"])
=============================================================================
