------------------------------- MODULE MCSink -------------------------------
(* All small indexes cut into all sequences of write calls, and all ways an   *)
(* output can treat them.                                                     *)
EXTENDS Sink

Hdr == <<"h", "\n">>
Bodies == UNION {[1..n -> {"a", "b"}] : n \in 0..4}
\* all ways to cut a sequence into pieces
RECURSIVE Cuts(_)
Cuts(s) == IF s = <<>> THEN {<<>>}
           ELSE UNION {{<<[to |-> "body", b |-> SubSeq(s, 1, k)]>> \o c : c \in Cuts(SubSeq(s, k + 1, Len(s)))} : k \in 1..Len(s)}
VARIABLE body
vars == <<svars, body>>
Init == /\ body \in Bodies
        /\ pieces \in {<<[to |-> "out", b |-> Hdr]>> \o c : c \in Cuts(body)}
        /\ text = Hdr \o body /\ out = <<>> /\ digest = <<>> /\ status = "run"
Next == SNext /\ UNCHANGED body
Spec == Init /\ [][Next]_vars
Whole == text \o Footer(body)
AcceptedIsPrefix == IsPrefix(out, Whole)
SuccessIsWhole == status = "ok" => out = Whole
DigestOfAccepted == digest = SubSeq(out, Len(Hdr) + 1, IF Len(out) > Len(text) THEN Len(text) ELSE Len(out))
FailureIsNotWhole == status = "error" => out # Whole
=============================================================================
