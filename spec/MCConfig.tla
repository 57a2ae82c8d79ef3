------------------------------ MODULE MCConfig ------------------------------
(* All short sequences of calls: they come to what the last ones say, and     *)
(* scanning in between changes nothing. Printed for replay.                   *)
EXTENDS Config, TLC, Json, IOUtils

Cmds == {[c |-> "hash", h |-> "sha512/256"], [c |-> "hash", h |-> "blake2b/256"], [c |-> "hash", h |-> "blake3/256"],
         [c |-> "threads", n |-> 0], [c |-> "threads", n |-> 1], [c |-> "threads", n |-> 3], [c |-> "auto"],
         [c |-> "queue", n |-> 0], [c |-> "queue", n |-> 5], [c |-> "dir", n |-> 1], [c |-> "dir", n |-> 2],
         [c |-> "progress"], [c |-> "scan"]}
MaxLen == atoi(IOEnv.DSV_LEN)
VARIABLES cmds, cfg
Init == cmds = <<>> /\ cfg = New
Next == /\ Len(cmds) < MaxLen
        /\ \E c \in Cmds : cmds' = Append(cmds, c) /\ cfg' = Call(cfg, c)
Spec == Init /\ [][Next]_<<cmds, cfg>>
AsDeclared == cfg = Declared(cmds)
ScansChangeNothing == cfg = After(SelectSeq(cmds, LAMBDA c : c.c # "scan"))
\* calls of different kinds can be exchanged
Exchange == \A i \in 1..Len(cmds) - 1 :
    cmds[i].c # cmds[i + 1].c /\ {cmds[i].c, cmds[i + 1].c} # {"threads", "auto"}
      => After([cmds EXCEPT ![i] = cmds[i + 1], ![i + 1] = cmds[i]]) = cfg
Printed == Len(cmds) < MaxLen \/ PrintT("@@" \o ToJson([cmds |-> cmds]))
=============================================================================
