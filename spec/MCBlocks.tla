------------------------------ MODULE MCBlocks ------------------------------
(* The hashing loop and the checking loop as they are built, over all small   *)
(* contents, block sizes, ways to split the reads, and a failure anywhere.    *)
EXTENDS Blocks, TLC

MaxLen == 5
Syms == {0, 1}
Contents == UNION {[1..n -> Syms] : n \in 0..MaxLen}

VARIABLES mode, bs, data, recorded, fail, pos, cur, got, size, status
vars == <<mode, bs, data, recorded, fail, pos, cur, got, size, status>>
\* recorded: digests to check against; cur: the block being read; got: digests made, or checked so far
Init == /\ mode \in {"hash", "check"} /\ bs \in 1..4 /\ data \in Contents
        /\ recorded \in IF mode = "hash" THEN {<<>>} ELSE {BlocksOf(c, bs) : c \in Contents}
        /\ fail \in {-1} \cup (IF mode = "hash" THEN {0, 2, 4} ELSE {1})
        /\ pos = 0 /\ cur = <<>> /\ got = <<>> /\ size = 0 /\ status = "run"

Eof == pos = Len(data)
Failing == fail >= 0 /\ pos >= fail
\* in the checking loop reading goes on until a block is full or the data ends, for each recorded digest
Wants == Len(cur) < bs /\ (mode = "hash" \/ Len(got) < Len(recorded))
Read == /\ status = "run" /\ Wants /\ ~Eof /\ ~Failing
        /\ \E k \in 1..(bs - Len(cur)) :
             /\ pos + k <= Len(data) /\ (fail >= 0 => pos + k <= fail)
             /\ cur' = cur \o SubSeq(data, pos + 1, pos + k) /\ pos' = pos + k
        /\ UNCHANGED <<mode, bs, data, recorded, fail, got, size, status>>
Boom == /\ status = "run" /\ Failing /\ (Wants \/ (mode = "check" /\ Len(got) = Len(recorded)))
        /\ status' = "error" /\ UNCHANGED <<mode, bs, data, recorded, fail, pos, cur, got, size>>
HashBlock == /\ status = "run" /\ mode = "hash" /\ (Len(cur) = bs \/ (Eof /\ ~Failing))
             /\ got' = IF cur = <<>> THEN got ELSE Append(got, cur)
             /\ size' = size + Len(cur) /\ cur' = <<>>
             /\ status' = IF Len(cur) < bs THEN "done" ELSE "run"
             /\ UNCHANGED <<mode, bs, data, recorded, fail, pos>>
CheckBlock == /\ status = "run" /\ mode = "check" /\ Len(got) < Len(recorded) /\ (Len(cur) = bs \/ (Eof /\ ~Failing))
              /\ got' = Append(got, cur) /\ cur' = <<>>
              /\ status' = IF cur = recorded[Len(got) + 1] THEN "run" ELSE "false"
              /\ UNCHANGED <<mode, bs, data, recorded, fail, pos, size>>
CheckEnd == /\ status = "run" /\ mode = "check" /\ Len(got) = Len(recorded) /\ ~Failing
            /\ status' = IF Eof THEN "true" ELSE "false"
            /\ UNCHANGED <<mode, bs, data, recorded, fail, pos, cur, got, size>>
Next == Read \/ Boom \/ HashBlock \/ CheckBlock \/ CheckEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

HashesRight == status = "done" => got = BlocksOf(data, bs) /\ size = Len(data) /\ Len(got) = NumBlocks(size, bs) /\ fail \notin 0..Len(data)
VerdictRight == /\ status = "true" => recorded = BlocksOf(data, bs)
                /\ status = "false" => recorded # BlocksOf(data, bs)
\* equal digests mean equal contents
Faithful == \A c \in {data} : \A d \in Contents : BlocksOf(c, bs) = BlocksOf(d, bs) => c = d
Terminates == <>(status # "run")
=============================================================================
