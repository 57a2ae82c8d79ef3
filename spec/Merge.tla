-------------------------------- MODULE Merge --------------------------------
(* Reading several indexes together. its[i] is the sequence of items of the   *)
(* i-th index, pos[i] the position in it.                                     *)
EXTENDS Cursor

Top(its, pos, i) == its[i][pos[i]]
Unfinished(its, pos) == {i \in 1..Len(its) : pos[i] <= Len(its[i])}
ErrHeads(its, pos) == {i \in Unfinished(its, pos) : Top(its, pos, i).o = "err"}
EntHeads(its, pos) == Unfinished(its, pos) \ ErrHeads(its, pos)
\* the indexes that have the least entry
Least(its, pos, C(_, _)) ==
    {i \in EntHeads(its, pos) : \A j \in EntHeads(its, pos) : C(Top(its, pos, i).e, Top(its, pos, j).e) <= 0}

\* which indexes may contribute to the next group: all that have the least entry, and any that have an
\* error to report; or only errors. {} means the end
GroupAllowed(its, pos, G, C(_, _)) ==
    LET errs == ErrHeads(its, pos)
        least == Least(its, pos, C)
    IN  IF Unfinished(its, pos) = {} THEN G = {}
        ELSE /\ G # {}
             /\ \/ least # {} /\ least \subseteq G /\ G \ least \subseteq errs
                \/ G \subseteq errs
Consumed(pos, G) == [i \in 1..Len(pos) |-> IF i \in G THEN pos[i] + 1 ELSE pos[i]]

\* seeking: each index on its own
Seek1(its, pos, k, C(_, _)) == [i \in 1..Len(its) |-> CAdvance(its[i], pos[i], k, C)]
Found(sk) == {i \in 1..Len(sk) : sk[i].r.o # "none"}
Moved(sk) == [i \in 1..Len(sk) |-> sk[i].pos]
=============================================================================
