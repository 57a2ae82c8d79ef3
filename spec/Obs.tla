--------------------------------- MODULE Obs ---------------------------------
(* Observed results of reading and what they agree with. An observation is     *)
(*   [k |-> "d" | "f" | "l", abs, p, ...]  an entry: path components, whether  *)
(*                                         the path is absolute                *)
(*   [k |-> "e", line]                     an error, line 0: names none        *)
(*   [k |-> "none"], or a crash: "panic", "endless", "hang", "died"            *)
EXTENDS Reader

IsEntryObs(ob) == ob.k \in {"d", "f", "l"}
SameEntry(ob, e, ht, bs) ==
    /\ ob.k = e.k /\ ob.abs /\ ob.p = e.p
    /\ ob.k = "l" => ob.l = e.l
    /\ ob.k = "f" => /\ ob.x = e.x /\ ob.sz = DecStr(e.sz) /\ ob.h = e.h /\ ob.ok
                     /\ ob.ht = ht /\ ob.bs = DecStr(bs)
Agrees(ob, r, ht, bs) ==
    CASE r.o = "entry" -> IsEntryObs(ob) /\ SameEntry(ob, r.e, ht, bs)
      [] r.o = "err" -> ob.k = "e" /\ (r.hi > 0 => ob.line \in r.lo..r.hi)
      [] r.o = "none" -> ob.k = "none"
\* ["ok", version, hash type, block size] or ["e", line]
OpenAgrees(ob, h, inp) ==
    CASE h.o = "err" -> ob[1] = "e" /\ (ob[2] = "1" \/ (inp.fail /\ Len(inp.lines) = 0))
      [] h.o = "ok" -> ob[1] = "ok" /\ ob = <<"ok", "v1", h.ht, DecStr(h.bs)>>

\* what is wrong with an observation when these results were allowed
Blame(ob, allowed) ==
    CASE ob.k \notin {"d", "f", "l", "e", "none"} -> "crash"
      [] ob.k = "e" -> IF \E r \in allowed : r.o = "err" THEN "line" ELSE IF allowed = {RNone} THEN "after" ELSE "reject"
      [] ob.k = "none" -> "end"
      [] OTHER -> IF \E r \in allowed : r.o = "entry" THEN "value" ELSE IF allowed = {RNone} THEN "after" ELSE "accept"

\* an entry that points out of the tree, whatever the input
Outside(ob) ==
    /\ IsEntryObs(ob)
    /\ ~ob.abs \/ DotDot \in Range(ob.p) \/ (ob.k # "d" /\ ob.p = <<>>)
=============================================================================
