------------------------------- MODULE MCPool -------------------------------
(* All pools with up to MaxLen entries of the kinds in KindSet, queue sizes   *)
(* and thread counts up to bounds. Gen: every order in which files can finish *)
(* when each finishes only after everything else has come to rest; printed    *)
(* with what is visible at rest, for replay on the real pool.                 *)
EXTENDS Pool, TLC, IOUtils, Json, SequencesExt

MaxLen == atoi(IOEnv.DSV_LEN)
MaxLimit == atoi(IOEnv.DSV_LIMIT)
MaxThreads == atoi(IOEnv.DSV_THREADS)
KindSet == IF IOEnv.DSV_KINDS = "dsfe" THEN {"d", "s", "f", "e"} ELSE {"d", "f"}

VARIABLE hist
allvars == <<vars, params, hist>>

Seqs(len) == {<<"d">> \o s : s \in [1..len - 1 -> KindSet]}
MCInit == /\ \E len \in 1..MaxLen : Items \in Seqs(len)
          /\ Limit \in 0..MaxLimit /\ Threads \in 1..MaxThreads /\ hist = <<>>
          /\ Init
MCSpec == MCInit /\ [][Next /\ UNCHANGED hist]_allvars /\ Fair

\* ---- schedules for replay: the internal moves are taken eagerly
GenInit == /\ \E len \in 2..MaxLen : Items \in {s \in Seqs(len) : \E i \in 1..len : s[i] = "f"}
           /\ Limit \in 0..MaxLimit /\ Threads \in 2..MaxThreads /\ hist = <<>>
           /\ Init
GenNext ==
    \/ Internal /\ UNCHANGED <<params, hist>>
    \/ /\ Quiet /\ status = "none"
       /\ \E i \in 1..N :
            /\ Finish(i)
            /\ hist' = Append(hist, [open |-> i, lines |-> Len(lines), started |-> SetToSortSeq(running \cup ready, <)])
       /\ UNCHANGED params
    \/ /\ status = "ok" /\ PrintT("@@" \o ToJson([items |-> Items, limit |-> Limit, threads |-> Threads, hist |-> hist]))
       /\ status' = "printed" /\ UNCHANGED <<params, hist, pc, next, queue, cur, jobs, running, ready, lines>>
GenSpec == GenInit /\ [][GenNext]_allvars
=============================================================================
