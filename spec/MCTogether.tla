----------------------------- MODULE MCTogether -----------------------------
(* Uses built as the library is (each with a cursor and a running digest of   *)
(* its own) in step with Together: what one returns depends on its own steps  *)
(* only, in every interleaving, with restarts.                                *)
EXTENDS TLC, Sequences, Integers
Uses == {1, 2, 3}
\* the inputs: two of them have the same one
Input(u) == IF u = 3 THEN <<5, 6, 7>> ELSE <<1, 2, 3>>
\* a use returns each item with all it has read so far (a digest is what it was made of)
Run(u) == [i \in 1..Len(Input(u)) |-> [item |-> Input(u)[i], digest |-> SubSeq(Input(u), 1, i)]]
VARIABLES at, got, shared, digest
T == INSTANCE Together
Init == T!TInit /\ digest = [u \in Uses |-> <<>>]
Step(u) == /\ at[u] <= Len(Input(u))
           /\ digest' = [digest EXCEPT ![u] = Append(@, Input(u)[at[u]])]
           /\ got' = [got EXCEPT ![u] = Append(@, [item |-> Input(u)[at[u]], digest |-> digest'[u]])]
           /\ at' = [at EXCEPT ![u] = @ + 1]
           /\ UNCHANGED shared
Again(u) == /\ at[u] > 1
            /\ at' = [at EXCEPT ![u] = 1] /\ got' = [got EXCEPT ![u] = <<>>] /\ digest' = [digest EXCEPT ![u] = <<>>]
            /\ UNCHANGED shared
Next == \E u \in Uses : Step(u) \/ Again(u)
Spec == Init /\ [][Next]_<<at, got, shared, digest>>
AsAlone == T!AsAlone
Untouched == T!Untouched
Refines == [][T!TNext]_<<at, got, shared>>
=============================================================================
