----------------------------- MODULE TraceWork -----------------------------
(* Judges how often recorded scans touched what, how much readers were asked   *)
(* for, and how the time grew.                                                 *)
(* [what |-> "scan", roots |-> nodes [t, w, sz, ls (entries listed), c],       *)
(*  other |-> counts of paths that are no entries, bytes |-> read in all]      *)
(* [what |-> "read", given, most (0: as for a hash), hash]                     *)
(* [what |-> "time", grow, slack, small, large (10 microseconds)]              *)
(* w: <<opened, reads, examined, links read, entries listed, listings>>        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

Opened(n) == n.w[1]
Reads(n) == n.w[2]
Examined(n) == n.w[3]
LinkReads(n) == n.w[4]
Delivered(n) == n.w[5]
Listings(n) == n.w[6]

\* however the reads are cut, they do not get smaller than that
ReadsFor(n) == n.sz \div 4096 + 8
Within(n) ==
    CASE n.t = "d" -> Listings(n) <= 1 /\ Opened(n) <= 6 /\ Reads(n) = 0 /\ LinkReads(n) = 0 /\ Examined(n) <= 8
                      /\ Delivered(n) <= n.ls + 4          \* and . and .., and the end
      [] n.t = "f" -> Opened(n) <= 1 /\ Reads(n) <= ReadsFor(n) /\ Examined(n) <= 6 /\ LinkReads(n) = 0 /\ Listings(n) = 0
      [] n.t = "s" -> Opened(n) = 0 /\ LinkReads(n) <= 4 /\ Examined(n) <= 6 /\ Reads(n) = 0 /\ Listings(n) = 0
      [] OTHER -> Opened(n) = 0 /\ Reads(n) = 0 /\ LinkReads(n) = 0 /\ Listings(n) = 0 /\ Examined(n) <= 6
\* of what is no entry of the tree nothing is opened
Idle(w) == w[1] = 0 /\ w[2] = 0 /\ w[6] = 0

RECURSIVE AllWithin(_), Bytes(_)
AllWithin(nodes) == \A i \in 1..Len(nodes) : Within(nodes[i]) /\ AllWithin(nodes[i].c)
Bytes(nodes) == FoldLeft(LAMBDA a, n : a + n.sz + Bytes(n.c), 0, nodes)

HashReads == 65536
Judge(rec) ==
    CASE rec.what = "scan" ->
           (IF AllWithin(rec.roots) THEN {} ELSE {"touched-often"})
           \cup (IF \A i \in 1..Len(rec.other) : Idle(rec.other[i]) THEN {} ELSE {"elsewhere"})
           \cup (IF rec.bytes > Bytes(rec.roots) THEN {"read-twice"} ELSE {})
      [] rec.what = "read" -> IF rec.given > (IF rec.hash THEN HashReads ELSE rec.most) THEN {"read-ahead"} ELSE {}
      [] OTHER -> IF rec.large > rec.slack * rec.grow * rec.small + 10000 THEN {"slow"} ELSE {}

VARIABLES l
Init == l = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1]
              v == Judge(rec)
          IN  IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> rec.id, labels |-> v]))
       /\ l' = l + 1
    \/ /\ l = Len(Recs)
       /\ PrintT("@@" \o ToJson([done |-> l]))
       /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
