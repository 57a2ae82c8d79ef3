----------------------------- MODULE MCProgress -----------------------------
(* Progress built as in the library, around a writer that queues (or not):    *)
(* after each entry it may be time to print; printing may fail at any time,   *)
(* the scan too. What is shown is true, and the index never depends on it.    *)
EXTENDS Progress, TLC
Kinds == UNION {{<<"d">> \o s : s \in [1..n -> {"d", "f", "s"}]} : n \in 0..4}
CONSTANT Queue
VARIABLES kinds, taken, written, status, count, lines, err
vars == <<kinds, taken, written, status, count, lines, err>>
Init == /\ kinds \in Kinds /\ taken = 0 /\ written = <<>> /\ status = "running"
        /\ count = <<0, 0, 0>> /\ lines = <<>> /\ err \in {"good", "bad"}
Told(d) == IF err = "good" THEN Append(lines, [done |-> d, n |-> count']) ELSE lines
\* counted before it is passed on; printed after
Take == /\ status = "running" /\ taken < Len(kinds) /\ taken - Len(written) <= Queue
        /\ count' = Plus(count, CountsOf(kinds[taken + 1]))
        /\ taken' = taken + 1
        /\ \/ lines' = lines
           \/ lines' = Told(FALSE)
        /\ UNCHANGED <<kinds, written, status, err>>
Write == /\ status = "running" /\ Len(written) < taken
         /\ written' = Append(written, kinds[Len(written) + 1])
         /\ UNCHANGED <<kinds, taken, status, count, lines, err>>
Fail == /\ status = "running" /\ status' = "failed" /\ UNCHANGED <<kinds, taken, written, count, lines, err>>
\* the footer is written, then the end is told
Done == /\ status = "running" /\ taken = Len(kinds) /\ Len(written) = taken
        /\ status' = "ok" /\ UNCHANGED count /\ lines' = Told(TRUE)
        /\ UNCHANGED <<kinds, taken, written, err>>
Breaks == status = "running" /\ err' \in {"good", "bad"} /\ UNCHANGED <<kinds, taken, written, status, count, lines>>
Next == Take \/ Write \/ Fail \/ Done \/ Breaks
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Write) /\ WF_vars(Done)
True == Truthful(lines, kinds) /\ Forward(lines)
End == /\ status # "ok" => \A i \in 1..Len(lines) : ~lines[i].done
       /\ status = "ok" /\ err = "good" => EndToldWell(lines, TRUE)
Index == IsPrefix(written, kinds) /\ (status = "ok" => written = kinds)
Ends == <>(status # "running")
=============================================================================
