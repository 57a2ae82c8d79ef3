------------------------------ MODULE PoolDefs ------------------------------
EXTENDS Integers, Sequences, FiniteSets

\* parameters of a run, chosen initially and never changed
VARIABLES Items,      \* sequence of "d", "s", "f", "e" (a file that cannot be read)
          Limit,      \* configured queue size
          Threads     \* number of workers
params == <<Items, Limit, Threads>>

N == Len(Items)
IsFile(i) == Items[i] \in {"f", "e"}

\* that many queued plus the one being added
ReadAheadOk(t, w) == t - w <= Limit + 1

\* when nothing moves until some file finishes, every line before the oldest unfinished file is there
FirstOpen(fin) == LET S == {i \in 1..N : IsFile(i) /\ i \notin fin} IN
                  IF S = {} THEN N + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
=============================================================================
