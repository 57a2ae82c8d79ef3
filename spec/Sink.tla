-------------------------------- MODULE Sink --------------------------------
(* Writing an index through an output that accepts bytes piecemeal, is        *)
(* interrupted, accepts nothing, or fails. Header and footer go straight out; *)
(* what the body's bytes are when they are accepted goes into the digest.     *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES pieces,   \* what is still to be written: <<[to |-> "out" | "body", b |-> bytes]>>; the last piece is the footer
          text,     \* header and body of the index
          out,      \* accepted bytes
          digest,   \* bytes digested
          status    \* "run", "ok", "error"
svars == <<pieces, text, out, digest, status>>

\* the footer depends on the digest at the time it is written
Footer(d) == <<[dig |-> d]>> \o <<"end">>
Begin(head, body, cuts) == head \o body

Accept(k) ==
    /\ status = "run" /\ pieces # <<>> /\ k \in 1..Len(pieces[1].b)
    /\ LET p == pieces[1]
           now == SubSeq(p.b, 1, k)
           left == SubSeq(p.b, k + 1, Len(p.b))
       IN  /\ out' = out \o now
           /\ digest' = IF p.to = "body" THEN digest \o now ELSE digest
           /\ pieces' = IF left = <<>> THEN Tail(pieces) ELSE <<[p EXCEPT !.b = left]>> \o Tail(pieces)
    /\ UNCHANGED <<text, status>>
\* an interruption changes nothing
Interrupt == status = "run" /\ pieces # <<>> /\ UNCHANGED svars
\* a failure, or an output that accepts nothing
Fail == status = "run" /\ pieces # <<>> /\ status' = "error" /\ UNCHANGED <<pieces, text, out, digest>>
Foot == /\ status = "run" /\ pieces = <<>> /\ IsPrefix(out, text)
        /\ pieces' = <<[to |-> "out", b |-> Footer(digest)]>> /\ UNCHANGED <<text, out, digest, status>>
Done == /\ status = "run" /\ pieces = <<>> /\ ~IsPrefix(out, text)
        /\ status' = "ok" /\ UNCHANGED <<pieces, text, out, digest>>
SNext == (\E k \in 1..8 : Accept(k)) \/ Interrupt \/ Fail \/ Foot \/ Done
=============================================================================
