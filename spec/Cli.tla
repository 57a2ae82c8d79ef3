--------------------------------- MODULE Cli ---------------------------------
(* The index tool: it takes its arguments, creates the output file if one is  *)
(* asked for, scans, hands the pieces of the index to a buffered output which *)
(* passes them on when it likes, flushes it, and exits.                       *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT Pieces        \* the number of pieces of an index

VARIABLES opts,     \* [args, dest, progress]
          fault,    \* [op, nth]
          phase, made, buf, place, elsewhere, told, summary, exit, drains
cvars == <<opts, fault, phase, made, buf, place, elsewhere, told, summary, exit, drains>>

ArgKinds == {"ok", "bad", "help", "none"}
FaultOps == {"none", "create", "root", "input", "write"}
Whole == [i \in 1..Pieces |-> i]
Going == exit = -1

Quit(code, message) == /\ exit' = code /\ told' = (told \/ message)
                       /\ UNCHANGED <<opts, fault, phase, made, buf, place, elsewhere, summary, drains>>
Arguments ==
    /\ Going /\ phase = "args"
    /\ CASE opts.args = "bad" -> Quit(2, TRUE)
         [] opts.args = "help" -> /\ exit' = 0 /\ elsewhere' = "usage"
                                  /\ UNCHANGED <<opts, fault, phase, made, buf, place, told, summary, drains>>
         [] OTHER -> phase' = "create" /\ UNCHANGED <<opts, fault, made, buf, place, elsewhere, told, summary, exit, drains>>
Create ==
    /\ Going /\ phase = "create"
    /\ IF opts.dest = "file" /\ fault.op = "create" THEN Quit(1, TRUE)
       ELSE phase' = "scan" /\ UNCHANGED <<opts, fault, made, buf, place, elsewhere, told, summary, exit, drains>>
\* the scan fails before the piece that needs what cannot be read; the first piece needs the directory
InputFails == \/ opts.args = "none" /\ made = 1
              \/ fault.op = "root" /\ made = 1
              \/ fault.op = "input" /\ made = fault.nth
Scan ==
    /\ Going /\ phase = "scan"
    /\ IF InputFails THEN Quit(1, TRUE)
       ELSE IF made < Pieces
            THEN made' = made + 1 /\ buf' = Append(buf, made + 1)
                 /\ UNCHANGED <<opts, fault, phase, place, elsewhere, told, summary, exit, drains>>
            ELSE /\ phase' = "flush" /\ summary' = opts.progress
                 /\ UNCHANGED <<opts, fault, made, buf, place, elsewhere, told, exit, drains>>
\* the output passes on some of what it holds; it must when asked to flush
Drain ==
    /\ Going /\ phase \in {"scan", "flush"} /\ buf # <<>>
    /\ drains' = drains + 1
    /\ IF fault.op = "write" /\ fault.nth = drains + 1
       THEN exit' = 1 /\ told' = TRUE /\ UNCHANGED <<opts, fault, phase, made, buf, place, elsewhere, summary>>
       ELSE \E k \in 1..Len(buf) :
              /\ place' = place \o SubSeq(buf, 1, k) /\ buf' = SubSeq(buf, k + 1, Len(buf))
              /\ UNCHANGED <<opts, fault, phase, made, elsewhere, told, summary, exit>>
Finish ==
    /\ Going /\ phase = "flush" /\ buf = <<>>
    /\ exit' = 0 /\ UNCHANGED <<opts, fault, phase, made, buf, place, elsewhere, told, summary, drains>>
CNext == Arguments \/ Create \/ Scan \/ Drain \/ Finish
=============================================================================
