-------------------------------- MODULE Pool --------------------------------
(* The thread pool as it is built: the scanning thread appends operations to  *)
(* a queue and polls its front; it waits for the front only when the queue is *)
(* full or at the end. Workers take jobs in order and finish in any order.    *)
EXTENDS PoolDefs

VARIABLES pc, next, queue, cur, jobs, running, ready, lines, status
vars == <<pc, next, queue, cur, jobs, running, ready, lines, status>>

Init == /\ pc = "add" /\ next = 1 /\ queue = <<>> /\ cur = 0 /\ jobs = <<>> /\ running = {}
        /\ ready = {} /\ lines = <<>> /\ status = "none"

Live == status = "none"
Add == /\ Live /\ pc = "add" /\ next <= N
       /\ queue' = Append(queue, next)
       /\ jobs' = IF IsFile(next) THEN Append(jobs, next) ELSE jobs
       /\ next' = next + 1 /\ pc' = "poll"
       /\ UNCHANGED <<cur, running, ready, lines, status>>
Settled(i) == ~IsFile(i) \/ i \in ready
Emit(i, q, p) ==
    IF Items[i] = "e" THEN status' = "error" /\ UNCHANGED <<lines, pc, queue>> /\ cur' = 0
    ELSE lines' = Append(lines, i) /\ pc' = p /\ queue' = q /\ cur' = 0 /\ UNCHANGED status
Poll == /\ Live /\ pc = "poll"
        /\ IF queue = <<>> THEN pc' = "add" /\ UNCHANGED <<queue, lines, cur, status>>
           ELSE IF Settled(queue[1]) THEN Emit(queue[1], Tail(queue), "poll")
           ELSE IF Len(queue) - 1 >= Limit
                THEN pc' = "wait" /\ cur' = queue[1] /\ queue' = Tail(queue) /\ UNCHANGED <<lines, status>>
           ELSE pc' = "add" /\ UNCHANGED <<queue, lines, cur, status>>
        /\ UNCHANGED <<next, jobs, running, ready>>
Wait == /\ Live /\ pc = "wait" /\ Settled(cur)
        /\ Emit(cur, queue, "poll")
        /\ UNCHANGED <<next, jobs, running, ready>>
Drain == /\ Live /\ pc \in {"add", "drain"} /\ next > N
         /\ IF queue = <<>> THEN status' = "ok" /\ UNCHANGED <<pc, queue, lines, cur>>
            ELSE Settled(queue[1]) /\ Emit(queue[1], Tail(queue), "drain")
         /\ UNCHANGED <<next, jobs, running, ready>>
Start == /\ jobs # <<>> /\ Cardinality(running) < Threads
         /\ running' = running \cup {jobs[1]} /\ jobs' = Tail(jobs)
         /\ UNCHANGED <<pc, next, queue, cur, ready, lines, status>>
Finish(i) == /\ i \in running
             /\ running' = running \ {i} /\ ready' = ready \cup {i}
             /\ UNCHANGED <<pc, next, queue, cur, jobs, lines, status>>
Internal == Add \/ Poll \/ Wait \/ Drain \/ Start
Next == (Internal \/ \E i \in 1..N : Finish(i)) /\ UNCHANGED params
\* every thread that can move moves at last
Fair == WF_vars(Add /\ UNCHANGED params) /\ WF_vars(Poll /\ UNCHANGED params) /\ WF_vars(Wait /\ UNCHANGED params)
        /\ WF_vars(Drain /\ UNCHANGED params) /\ WF_vars(Start /\ UNCHANGED params)
        /\ WF_vars((\E i \in 1..N : Finish(i)) /\ UNCHANGED params)

-----------------------------------------------------------------------------
InOrder == lines = [i \in 1..Len(lines) |-> i]
Bounded == ReadAheadOk(next - 1, Len(lines))
Errors == \E i \in 1..N : Items[i] = "e"
Complete == status = "ok" => Len(lines) = N /\ ~Errors
FailsIfUnread == status = "error" => Errors
\* nothing left to do until a file finishes
Quiet == ~ENABLED (Internal /\ UNCHANGED params)
NothingHeldBack == Quiet /\ status = "none" => Len(lines) = FirstOpen(ready) - 1
Terminates == <>(status # "none")
\* the pool does what is promised
Abs == INSTANCE PoolAbs WITH taken <- next - 1, opened <- running \cup ready, finished <- ready,
                             written <- Len(lines), result <- status
Refines == Abs!AInit /\ [][Abs!ANext /\ UNCHANGED params]_<<next, running, ready, lines, status, params>>
=============================================================================
