---------------------------- MODULE TraceTogether ----------------------------
(* Judges uses recorded side by side against Together. Record:                *)
(* [id, uses, before, after, seen]: a use is [alone, got]: its answer when it *)
(* was performed alone, in another process, and its different answers among   *)
(* the others; before, after and seen (meanwhile): what the process shares.   *)
EXTENDS TLC, Json, IOUtils, Sequences, Integers
Same(alone, answers) == \A i \in 1..Len(answers) : answers[i] = alone

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)
Crashed(a) == a = "crash"
Judge(r) ==
    (IF \E i \in 1..Len(r.uses) : \E j \in 1..Len(r.uses[i].got) : Crashed(r.uses[i].got[j]) /\ ~Crashed(r.uses[i].alone) THEN {"crash"}
     ELSE IF \E i \in 1..Len(r.uses) : r.uses[i].got = <<>> \/ ~Same(r.uses[i].alone, r.uses[i].got) THEN {"disturbed"} ELSE {})
    \cup (IF r.before # r.after THEN {"left behind"} ELSE {})
    \cup (IF ~Same(r.now, r.seen) THEN {"touched"} ELSE {})

VARIABLES l, seen
Init == l = 0 /\ seen = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET v == Judge(Recs[l + 1]) IN
          IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Recs[l + 1].id, labels |-> v]))
       /\ seen' = seen + Len(Recs[l + 1].uses)
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l, uses |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
