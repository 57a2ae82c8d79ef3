----------------------------- MODULE MCGetHash -----------------------------
(* Reading the stored hash as it is built, over all small files: the start of *)
(* the file is looked at, then the last D + 2 bytes, in pieces as the reader  *)
(* delivers them; reading or seeking may fail. "H" is a supported header, "0" *)
(* a digit, "/" begins an entry. DSV_DEEP: longer files.                      *)
EXTENDS Integers, Sequences, SequencesExt, TLC, IOUtils

D == 2
Chars == {"H", "0", "/", "\n"}
MaxLen == IF IOEnv.DSV_DEEP = "1" THEN 8 ELSE 7
Files == UNION {[1..n -> Chars] : n \in 0..MaxLen}

\* the complete indexes among them
RECURSIVE LinesOf(_, _)
LinesOf(f, cur) == IF f = <<>> THEN <<cur>>
                   ELSE IF f[1] = "\n" THEN <<cur>> \o LinesOf(Tail(f), <<>>)
                   ELSE LinesOf(Tail(f), Append(cur, f[1]))
Complete(f) ==
    LET ls == LinesOf(f, <<>>)
        n == Len(ls)
    IN  /\ n >= 3 /\ ls[n] = <<>> /\ ls[1] = <<"H">>
        /\ ls[n - 1] = [i \in 1..D |-> "0"]
        /\ \A i \in 2..n - 2 : ls[i] # <<>> /\ ls[i][1] = "/"
\* beginnings of complete indexes, of any length
Beginning(f) ==
    LET ls == LinesOf(f, <<>>)
        n == Len(ls)
    IN  \/ f = <<>> \/ f = <<"H">> \/ Complete(f)
        \/ /\ n >= 2 /\ ls[1] = <<"H">>
           /\ \A i \in 2..n - 1 : ls[i] # <<>> /\ ls[i][1] = "/"
           /\ \/ ls[n] = <<>> \/ ls[n][1] = "/" \/ (Len(ls[n]) <= D /\ \A i \in 1..Len(ls[n]) : ls[n][i] = "0")

VARIABLES file, step, buf, status, failed
vars == <<file, step, buf, status, failed>>
\* step: "head", "seek", "tail"; status: "run", "err" or the hash
Init == file \in Files /\ step = "head" /\ buf = <<>> /\ status = "run" /\ failed = FALSE
Err == status' = "err" /\ UNCHANGED <<file, step, buf, failed>>
Read == status = "run" /\ step \in {"head", "tail"}
Broken == status = "run" /\ status' = "err" /\ failed' = TRUE /\ UNCHANGED <<file, step, buf>>
ReadHead == /\ Read /\ step = "head"
            /\ IF file = <<>> \/ file[1] # "H" THEN Err ELSE step' = "seek" /\ UNCHANGED <<file, buf, status, failed>>
Seek == /\ status = "run" /\ step = "seek"
        /\ IF Len(file) < D + 2 THEN Err ELSE step' = "tail" /\ UNCHANGED <<file, buf, status, failed>>
ReadTail == /\ Read /\ step = "tail" /\ Len(buf) < D + 2
            /\ \E k \in 1..(D + 2 - Len(buf)) :
                 buf' = buf \o SubSeq(file, Len(file) - D - 2 + Len(buf) + 1, Len(file) - D - 2 + Len(buf) + k)
            /\ UNCHANGED <<file, step, status, failed>>
Judge == /\ status = "run" /\ step = "tail" /\ Len(buf) = D + 2
         /\ status' = IF buf[1] = "\n" /\ buf[D + 2] = "\n" /\ \A i \in 2..D + 1 : buf[i] = "0" THEN "hash" ELSE "err"
         /\ UNCHANGED <<file, step, buf, failed>>
Next == ReadHead \/ Seek \/ ReadTail \/ Judge \/ Broken
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadHead \/ Seek \/ ReadTail \/ Judge)

LastLineIsFooter == status = "hash" => LET ls == LinesOf(file, <<>>) IN
    Len(ls) >= 3 /\ ls[Len(ls)] = <<>> /\ ls[Len(ls) - 1] = [i \in 1..D |-> "0"]
CompleteIsRead == Complete(file) /\ status = "err" => failed
NoPrefixIsRead == Beginning(file) /\ ~Complete(file) => status # "hash"
FailureIsReported == failed => status = "err"
\* the definitions of complete and beginning fit together
Fit == /\ Complete(file) => Beginning(file)
       /\ Complete(file) => \A i \in 0..Len(file) - 1 : Beginning(SubSeq(file, 1, i)) /\ ~Complete(SubSeq(file, 1, i))
Terminates == <>(status # "run")
=============================================================================
