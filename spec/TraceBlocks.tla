---------------------------- MODULE TraceBlocks ----------------------------
(* Judges recorded hashing and checking of streams. The tables give the       *)
(* digests of the blocks of each content, made independently.                 *)
(* hash:  [id, op |-> "hf", ht, bs, len, h, d, fired, res]                    *)
(* check: [id, op |-> "cf", ht, bs, len0, h0, len, h, fired, res]             *)
(* d: digests as the known deviation K1 of blake3 makes them (accumulating)   *)
EXTENDS Num, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

TableOk(r) == /\ NumBlocksIs(NumOf(r.len), NumOf(r.bs), Len(r.h))
              /\ r.op = "cf" => NumBlocksIs(NumOf(r.len0), NumOf(r.bs), Len(r.h0))
Hash(r) ==
    IF r.res[1] \notin {"ok", "e"} THEN {"crash"}
    ELSE IF r.fired THEN (IF r.res[1] = "e" THEN {} ELSE {"swallowed"})
    ELSE IF r.res[1] = "e" THEN {"failed"}
    ELSE (IF r.res[2] # r.len THEN {"size"} ELSE {})
         \cup (IF r.res[3] = r.h THEN {}
               ELSE IF r.ht = "blake3/256" /\ r.res[3] = r.d THEN {"K1"}
               ELSE IF Len(r.res[3]) # Len(r.h) THEN {"number"} ELSE {"digests"})
         \cup (IF r.res[4] /\ r.res[5] = r.bs /\ r.res[6] = r.ht THEN {} ELSE {"access"})
Check(r) ==
    IF r.res[1] \notin {"ok", "e"} THEN {"crash"}
    ELSE IF r.fired THEN (IF r.res[1] = "e" THEN {} ELSE {"swallowed"})
    ELSE IF r.res[1] = "e" THEN {"failed"}
    ELSE IF r.res[2] = (r.h0 = r.h /\ r.len0 = r.len) THEN {} ELSE {"verdict"}

VARIABLES l
Init == l = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET r == Recs[l + 1]
              v == IF r.op = "hf" THEN Hash(r) ELSE Check(r)
          IN  /\ Assert(TableOk(r), <<"digest table", r.id>>)
              /\ IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> r.id, labels |-> v]))
       /\ l' = l + 1
    \/ l = Len(Recs) /\ PrintT("@@" \o ToJson([done |-> l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
