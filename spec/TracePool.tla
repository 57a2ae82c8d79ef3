------------------------------ MODULE TracePool ------------------------------
(* Validates logs of real threaded scans, event by event, against PoolAbs.    *)
(* The workers' finishing is visible only where the harness holds files back  *)
(* (gated runs); taking up an entry is visible by the opening of its file.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

VARIABLES Items, Limit, Threads, taken, opened, finished, written, result, l, i
Abs == INSTANCE PoolAbs
absvars == <<Items, Limit, Threads, taken, opened, finished, written, result>>
vars == <<absvars, l, i>>

SetUp(n) ==
    /\ Items' = IF n > Len(Recs) THEN <<>> ELSE Recs[n].items
    /\ Limit' = IF n > Len(Recs) THEN 0 ELSE Recs[n].limit
    /\ Threads' = IF n > Len(Recs) THEN 0 ELSE Recs[n].threads
    /\ taken' = 0 /\ opened' = {} /\ finished' = {} /\ written' = 0 /\ result' = "none"
    /\ l' = n /\ i' = 1
Init == /\ Items = <<>> /\ Limit = 0 /\ Threads = 0 /\ taken = 0 /\ opened = {} /\ finished = {}
        /\ written = 0 /\ result = "none" /\ l = 0 /\ i = 1

Rec == Recs[l]
Ev == Rec.ev[i]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* ["open", j]: some ATake steps, then AOpen(j)
OpenOk(j) == j \in 1..Len(Items) /\ Abs!IsFile(j) /\ Abs!ReadAheadOk(Max(taken, j), written)
Open(j) == /\ OpenOk(j)
           /\ taken' = Max(taken, j) /\ opened' = opened \cup {j} /\ UNCHANGED <<finished, written, result>>
\* ["gate", j]: the harness lets j finish (at once or when it will be opened)
Gate(j) == finished' = finished \cup {j} /\ UNCHANGED <<taken, opened, written, result>>
\* ["lines", n]: header, body lines and footer written so far; some AFinish steps (in ungated runs)
\* and ATake steps, then AWrite steps
WriteOk(w) == /\ w >= written
              /\ \A k \in written + 1..w : Abs!IsFile(k) => /\ Items[k] # "e" /\ k \in opened
                                                            /\ Rec.gated => k \in finished
Lines(n) == LET w == Min(Max(n - 1, 0), Len(Items)) IN
            /\ WriteOk(w)
            /\ written' = w /\ taken' = Max(taken, w) /\ UNCHANGED <<opened, finished, result>>
\* ["rest", n]: nothing moves
RestOk(n) == Min(Max(n - 1, 0), Len(Items)) = written /\ (Rec.gated => written = Abs!FirstOpen(finished) - 1)
Rest(n) == RestOk(n) /\ UNCHANGED <<taken, opened, finished, written, result>>
\* ["end", result]
EndOk(r) == IF \E k \in 1..Len(Items) : Items[k] = "e" THEN r # "ok" /\ r # "hang" ELSE r = "ok" /\ written = Len(Items)
End(r) == EndOk(r) /\ result' = r /\ UNCHANGED <<taken, opened, finished, written>>

Ok == CASE Ev[1] = "open" -> OpenOk(Ev[2])
        [] Ev[1] = "gate" -> TRUE
        [] Ev[1] = "lines" -> WriteOk(Min(Max(Ev[2] - 1, 0), Len(Items)))
        [] Ev[1] = "rest" -> RestOk(Ev[2])
        [] Ev[1] = "end" -> EndOk(Ev[2])
Why == CASE Ev[1] = "open" -> "ahead" [] Ev[1] = "lines" -> "early" [] Ev[1] = "rest" -> "held" [] OTHER -> "end"
Act == CASE Ev[1] = "open" -> Open(Ev[2])
         [] Ev[1] = "gate" -> Gate(Ev[2])
         [] Ev[1] = "lines" -> Lines(Ev[2])
         [] Ev[1] = "rest" -> Rest(Ev[2])
         [] Ev[1] = "end" -> End(Ev[2])

Next ==
    \/ /\ l = 0 /\ SetUp(1)
    \/ /\ l \in 1..Len(Recs) /\ i <= Len(Rec.ev)
       /\ IF Ok THEN Act /\ i' = i + 1 /\ UNCHANGED <<Items, Limit, Threads, l>>
          ELSE /\ PrintT("@@" \o ToJson([id |-> Rec.id, at |-> i, ev |-> Ev, written |-> written, why |-> Why]))
               /\ SetUp(l + 1)
    \/ /\ l \in 1..Len(Recs) /\ i > Len(Rec.ev) /\ SetUp(l + 1)
    \/ /\ l = Len(Recs) + 1 /\ i = 1
       /\ PrintT("@@" \o ToJson([done |-> Len(Recs)])) /\ i' = 2 /\ UNCHANGED <<absvars, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
