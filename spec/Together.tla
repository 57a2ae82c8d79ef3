------------------------------ MODULE Together ------------------------------
(* Uses of the library side by side: each is a run over inputs of its own,    *)
(* advancing in any interleaving; each may be started again, or abandoned.    *)
(* What the process shares is nobody's to change.                             *)
EXTENDS Integers, Sequences

CONSTANTS Uses,         \* the uses
          Run(_)        \* Run(u): what use u returns step by step when it is alone
VARIABLES at,           \* how far each has come
          got,          \* what it has returned since it was started
          shared        \* what the process shares
tvars == <<at, got, shared>>
TInit == at = [u \in Uses |-> 1] /\ got = [u \in Uses |-> <<>>] /\ shared = "as found"
Step(u) == /\ at[u] <= Len(Run(u))
           /\ got' = [got EXCEPT ![u] = Append(@, Run(u)[at[u]])]
           /\ at' = [at EXCEPT ![u] = @ + 1]
           /\ UNCHANGED shared
\* from the start again; half-way, what was begun is dropped
Again(u) == /\ at[u] > 1
            /\ at' = [at EXCEPT ![u] = 1] /\ got' = [got EXCEPT ![u] = <<>>]
            /\ UNCHANGED shared
TNext == \E u \in Uses : Step(u) \/ Again(u)
AsAlone == \A u \in Uses : got[u] = SubSeq(Run(u), 1, Len(got[u]))
Untouched == shared = "as found"

\* of recorded uses: what use u answered, every time it was performed among others, and alone
Same(alone, answers) == \A i \in 1..Len(answers) : answers[i] = alone
=============================================================================
