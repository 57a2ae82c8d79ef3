-------------------------------- MODULE Emit --------------------------------
(* Writing an index by hand: the rows that a sequence of commands makes.      *)
(*   ["d", path]  ["f", name, exe, size, digests]  ["l", name, target]        *)
EXTENDS Tree

CmdToks(c) ==
    CASE c.c = "d" -> DirToks(c.p)
      [] c.c = "f" -> FileToks(c.n, c.x, c.sz, c.h)
      [] c.c = "l" -> LinkToks(c.n, c.l)
RowsOf(cmds) == [i \in 1..Len(cmds) |-> CmdToks(cmds[i])]
=============================================================================
