------------------------------- MODULE Config -------------------------------
(* The settings of a scan: what a configuration made by a sequence of calls   *)
(* asks for. Calls: [c |-> "hash", h], [c |-> "threads", n], [c |-> "auto"],  *)
(* [c |-> "queue", n], [c |-> "dir", n], [c |-> "progress"], [c |-> "scan"].  *)
EXTENDS Integers, Sequences, SequencesExt

Auto == -1
New == [hash |-> "sha512/256", threads |-> 0, queue |-> <<>>, dirs |-> <<>>, progress |-> FALSE]
Call(cfg, c) ==
    CASE c.c = "hash" -> [cfg EXCEPT !.hash = c.h]
      [] c.c = "threads" -> [cfg EXCEPT !.threads = c.n]
      [] c.c = "auto" -> [cfg EXCEPT !.threads = Auto]
      [] c.c = "queue" -> [cfg EXCEPT !.queue = <<c.n>>]
      [] c.c = "dir" -> [cfg EXCEPT !.dirs = Append(@, c.n)]
      [] c.c = "progress" -> [cfg EXCEPT !.progress = TRUE]
      [] c.c = "scan" -> cfg
After(cmds) == FoldLeft(Call, New, cmds)

\* the same, put differently: the last call of a kind counts, all directories, progress once asked for
LastOf(cmds, kinds, get(_), default) ==
    LET at == {i \in 1..Len(cmds) : cmds[i].c \in kinds} IN
    IF at = {} THEN default ELSE get(cmds[CHOOSE i \in at : \A j \in at : j <= i])
Declared(cmds) ==
    [hash |-> LastOf(cmds, {"hash"}, LAMBDA c : c.h, "sha512/256"),
     threads |-> LastOf(cmds, {"threads", "auto"}, LAMBDA c : IF c.c = "auto" THEN Auto ELSE c.n, 0),
     queue |-> LastOf(cmds, {"queue"}, LAMBDA c : <<c.n>>, <<>>),
     dirs |-> LET ds == SelectSeq(cmds, LAMBDA c : c.c = "dir") IN [i \in 1..Len(ds) |-> ds[i].n],
     progress |-> \E i \in 1..Len(cmds) : cmds[i].c = "progress"]

\* threads beside the calling one; cpus: the least and most that count as the number of CPUs
Most(cfg, cpus) == IF cfg.threads = Auto THEN cpus[2] ELSE cfg.threads
Least(cfg, cpus) == IF cfg.threads = Auto THEN cpus[1] ELSE cfg.threads
\* files that are in work at the same time while none of them can be finished: every thread has one, as
\* far as the queue lets them (by default it has room for as many as there are threads); one can be in
\* work beside a full queue
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
AtWork(threads, queue, files, more) ==
    Min2(files, IF queue = <<>> THEN threads ELSE Min2(threads, Max2(1, queue[1] + more)))
LeastAtWork(cfg, cpus, files) == AtWork(Max2(1, Least(cfg, cpus)), cfg.queue, files, 0)
MostAtWork(cfg, cpus, files) == AtWork(Max2(1, Most(cfg, cpus)), cfg.queue, files, 1)
=============================================================================
