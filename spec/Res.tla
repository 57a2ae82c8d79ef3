-------------------------------- MODULE Res --------------------------------
(* A scan and what it holds: descriptors (of directories, while something      *)
(* below them is still to come; of files being read) and entries listed but    *)
(* not yet dealt with. Anything may fail at any time.                          *)
EXTENDS Tree, ResDefs

CONSTANTS Overlays, MaxLimit, MaxWorkers

VARIABLES ov, limit, workers, work, todo, cur, queue, running, status
vars == <<ov, limit, workers, work, todo, cur, queue, running, status>>
\* work: directories to come, [p |-> path, src |-> <<[h |-> handle of the parent, c |-> listing]>>]
\* todo: sources of the directory at hand not yet listed; cur: [p, files, subs] of what has been
\* queue: entries on their way to the output, [h |-> handle, f |-> is a file]; running: indexes of
\* those being read
\* a handle is <<path, number of the tree>>

Root(i) == <<<<-1>>, i>>      \* the added directory as such
Idle == [p |-> <<>>, files |-> <<>>, subs |-> <<>>]

\* a listing knows only names; give every node a handle to where it was listed
At(h, nodes) == [i \in 1..Len(nodes) |-> [h |-> h, nd |-> nodes[i]]]

Handles(s) == {s[i].h : i \in 1..Len(s)}
Held == UNION {Handles(work[i].src) : i \in 1..Len(work)} \cup Handles(todo)
        \cup Handles(cur.files) \cup Handles(cur.subs) \cup Handles(queue)
Descriptors == Cardinality(Held) + Cardinality(running) + (IF status = "list" THEN 1 ELSE 0)
               + (IF status = "read" THEN 1 ELSE 0)
Remembered == Len(cur.files) + Len(cur.subs)
              + FoldSeq(LAMBDA g, a : Len(g.src) + a, 0, work)

Init ==
    /\ ov \in Overlays
    /\ limit \in 0..MaxLimit /\ workers \in 0..MaxWorkers
    /\ workers = 0 => limit = 0
    /\ work = <<[p |-> <<>>, src |-> [i \in 1..Len(ov) |-> [h |-> Root(i), i |-> i, c |-> ov[i]]]]>>
    /\ todo = <<>> /\ cur = Idle /\ queue = <<>> /\ running = {} /\ status = "next"

Take ==
    /\ status = "next" /\ work # <<>>
    /\ todo' = work[1].src /\ work' = Tail(work)
    /\ cur' = [Idle EXCEPT !.p = work[1].p]
    /\ status' = "list"
    /\ UNCHANGED <<ov, limit, workers, queue, running>>

ListOne ==
    /\ status = "list" /\ todo # <<>>
    /\ LET s == todo[1]
           h == <<cur.p, s.i>>
           all == [j \in 1..Len(s.c) |-> [h |-> h, i |-> s.i, nd |-> s.c[j]]]
       IN cur' = [cur EXCEPT !.files = @ \o SelectSeq(all, LAMBDA x : IsEntry(x.nd)),
                             !.subs = @ \o SelectSeq(all, LAMBDA x : IsDir(x.nd))]
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<ov, limit, workers, work, queue, running, status>>
Listed ==
    /\ status = "list" /\ todo = <<>> /\ status' = "write"
    /\ UNCHANGED <<ov, limit, workers, work, todo, cur, queue, running>>

\* without workers an entry is read and written on the spot
Direct ==
    /\ workers = 0 /\ status = "write" /\ cur.files # <<>>
    /\ status' = "read"
    /\ UNCHANGED <<ov, limit, workers, work, todo, cur, queue, running>>
DirectDone ==
    /\ status = "read" /\ status' = "write" /\ cur' = [cur EXCEPT !.files = Tail(@)]
    /\ UNCHANGED <<ov, limit, workers, work, todo, queue, running>>

Enqueue ==
    /\ workers > 0 /\ status = "write" /\ cur.files # <<>> /\ Len(queue) <= limit
    /\ queue' = Append(queue, [h |-> cur.files[1].h, f |-> cur.files[1].nd.t = "f"])
    /\ cur' = [cur EXCEPT !.files = Tail(@)]
    /\ UNCHANGED <<ov, limit, workers, work, todo, running, status>>
Start ==
    /\ workers > 0
    /\ \E i \in 1..Len(queue) : queue[i].f /\ i \notin running /\ Cardinality(running) < workers
                                /\ running' = running \cup {i}
    /\ UNCHANGED <<ov, limit, workers, work, todo, cur, queue, status>>
\* the oldest is finished (whatever it is) and written
Retire ==
    /\ queue # <<>> /\ (queue[1].f => 1 \in running)
    /\ queue' = Tail(queue)
    /\ running' = {i - 1 : i \in running \ {1}}
    /\ UNCHANGED <<ov, limit, workers, work, todo, cur, status>>

RECURSIVE Groups(_, _)
Groups(path, ds) ==
    IF ds = <<>> THEN <<>>
    ELSE LET n == ds[1].nd.n
             same == SelectSeq(ds, LAMBDA x : x.nd.n = n)
             rest == SelectSeq(ds, LAMBDA x : x.nd.n # n)
         IN  <<[p |-> Append(path, n), src |-> [i \in 1..Len(same) |-> [h |-> same[i].h, i |-> same[i].i, c |-> same[i].nd.c]]]>>
             \o Groups(path, rest)
Descend ==
    /\ status = "write" /\ cur.files = <<>>
    /\ work' = Groups(cur.p, cur.subs) \o work
    /\ cur' = Idle /\ status' = "next"
    /\ UNCHANGED <<ov, limit, workers, todo, queue, running>>

Clear(st) == work' = <<>> /\ todo' = <<>> /\ cur' = Idle /\ queue' = <<>> /\ running' = {} /\ status' = st
Finish ==
    /\ status = "next" /\ work = <<>> /\ queue = <<>>
    /\ Clear("ok") /\ UNCHANGED <<ov, limit, workers>>
Fail ==
    /\ status \notin {"ok", "failed"}
    /\ Clear("failed") /\ UNCHANGED <<ov, limit, workers>>

Next == Take \/ ListOne \/ Listed \/ Direct \/ DirectDone \/ Enqueue \/ Start \/ Retire \/ Descend \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == status \in {"ok", "failed"}
NothingLeft == Ended => Descriptors = 0 /\ Remembered = 0
DescriptorsBounded == Descriptors <= FdBound(Len(ov), DepthAll(ov), limit, workers)
\* entries are counted with weight 1; the added directories themselves count too
RECURSIVE Sized(_)
Sized(nodes) == [i \in 1..Len(nodes) |-> IF IsDir(nodes[i]) THEN [t |-> "d", b |-> 1, k |-> 1, c |-> Sized(nodes[i].c)] ELSE [t |-> "f", b |-> 1, k |-> 1]]
EntriesBounded == Remembered <= Len(ov) + ChainAll([i \in 1..Len(ov) |-> Sized(ov[i])], 1, 0)
Ends == <>Ended
=============================================================================
