-------------------------------- MODULE MCCli --------------------------------
(* All combinations of arguments and faults; GenSpec prints how each run ends *)
(* so that the real tool can be put through it.                               *)
EXTENDS Cli, TLC, Json

MCPieces == 4
VARIABLE printed
Init ==
    /\ opts \in [args : ArgKinds, dest : {"out", "file"}, progress : BOOLEAN]
    /\ fault \in {[op |-> "none", nth |-> 0], [op |-> "create", nth |-> 1], [op |-> "root", nth |-> 1]}
                 \cup {[op |-> "input", nth |-> n] : n \in 1..Pieces - 1}   \* the last piece is the footer
                 \cup {[op |-> "write", nth |-> n] : n \in 1..Pieces}
    /\ phase = "args" /\ made = 0 /\ buf = <<>> /\ place = <<>> /\ elsewhere = "" /\ told = FALSE
    /\ summary = FALSE /\ exit = -1 /\ drains = 0
MSpec == Init /\ printed = FALSE /\ [][CNext /\ UNCHANGED printed]_<<cvars, printed>> /\ WF_<<cvars, printed>>(CNext /\ UNCHANGED printed)

SuccessIsWhole == exit = 0 /\ opts.args # "help" => place = Whole
WholeIsSuccess == ~Going /\ place = Whole => exit = 0
FailureIsTold == exit > 0 => told
NoMessageOtherwise == exit = 0 => ~told
PrefixOnly == IsPrefix(place, Whole)
SummaryWhenAsked == exit = 0 /\ opts.args = "ok" => summary = opts.progress
\* a fault that can be met is met
Fails == ~Going /\ opts.args = "ok" /\ (\/ fault.op \in {"root", "input"} \/ (fault.op = "create" /\ opts.dest = "file")
                                       \/ (fault.op = "write" /\ drains >= fault.nth)) => exit # 0
Sound == ~Going /\ opts.args = "ok" /\ fault.op = "none" => exit = 0
Ends == <>(~Going)

GenInit == Init /\ printed = FALSE
GenNext == \/ CNext /\ UNCHANGED printed
           \/ ~Going /\ ~printed /\ printed' = TRUE /\ UNCHANGED cvars
              /\ PrintT("@@" \o ToJson([args |-> opts.args, dest |-> opts.dest, progress |-> opts.progress, fop |-> fault.op, nth |-> fault.nth, exit |-> exit]))
View == <<opts, fault, exit, printed>>
GenSpec == GenInit /\ [][GenNext]_<<cvars, printed>>
=============================================================================
