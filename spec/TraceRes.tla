----------------------------- MODULE TraceRes -----------------------------
(* Judges what recorded scans held on to and what they left behind.            *)
(* [id, ov (sized trees), limit, workers, blocks (most blocks of one file),    *)
(*  fds |-> <<before, after, most>>, threads |-> <<before, after>>, touched,   *)
(*  peak |-> KiB, or -1, extra |-> KiB]; absent: <<>>                          *)
EXTENDS ResDefs, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.DSV_TRACE)

\* what is no matter of principle: descriptors of the runtime, buffers
SlackFds == 16
SlackKiB(workers) == 2048 + 1024 * workers
\* a remembered entry may cost that many bytes, and each byte of its name or path so many
EntryBytes == 600
PerByte == 6
\* digests of files read ahead: 64 characters and a separator each, in a string that grows by copying
DigestKiB(rec) == IF rec.workers = 0 THEN 0 ELSE (rec.limit + 2 + rec.workers) * ((rec.blocks * 65 * 3) \div 1024 + 1)

MemBound(rec) == SlackKiB(rec.workers) + rec.extra + ChainAll(rec.ov, EntryBytes, PerByte) \div 1024 + DigestKiB(rec)

Judge(rec) ==
    (IF rec.fds # <<>> /\ rec.fds[2] # rec.fds[1] THEN {"fds-left"} ELSE {})
    \cup (IF rec.fds # <<>> /\ rec.fds[3] > FdBound(Len(rec.ov), DepthAll(rec.ov), rec.limit, rec.workers) + SlackFds
          THEN {"fds-many"} ELSE {})
    \cup (IF rec.threads # <<>> /\ rec.threads[2] # rec.threads[1] THEN {"threads-left"} ELSE {})
    \cup (IF rec.touched THEN {"touched"} ELSE {})
    \cup (IF rec.peak > MemBound(rec) THEN {"memory"} ELSE {})

VARIABLES l
Init == l = 0
Next ==
    \/ /\ l < Len(Recs)
       /\ LET rec == Recs[l + 1]
              v == Judge(rec)
          IN  IF v = {} THEN TRUE
              ELSE PrintT("@@" \o ToJson([id |-> rec.id, labels |-> v, fdbound |-> FdBound(Len(rec.ov), DepthAll(rec.ov), rec.limit, rec.workers),
                                          membound |-> MemBound(rec)]))
       /\ l' = l + 1
    \/ /\ l = Len(Recs)
       /\ PrintT("@@" \o ToJson([done |-> l]))
       /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
