------------------------------- MODULE PoolAbs -------------------------------
(* A threaded scan seen from outside: entries 1..N in index order are taken   *)
(* up, files among them are opened and finished by workers in any order,      *)
(* lines are written in order. Nothing but this is promised.                  *)
EXTENDS PoolDefs

VARIABLES taken, opened, finished, written, result
avars == <<taken, opened, finished, written, result>>

AInit == taken = 0 /\ opened = {} /\ finished = {} /\ written = 0 /\ result = "none"

ATake == /\ result = "none" /\ taken < N /\ ReadAheadOk(taken + 1, written)
         /\ taken' = taken + 1 /\ UNCHANGED <<opened, finished, written, result>>
AOpen(i) == /\ i \in 1..taken /\ IsFile(i) /\ i \notin opened
            /\ opened' = opened \cup {i} /\ UNCHANGED <<taken, finished, written, result>>
AFinish(i) == /\ i \in opened \ finished
              /\ finished' = finished \cup {i} /\ UNCHANGED <<taken, opened, written, result>>
\* a line waits for nothing but the entries before it and its own content
AWrite == /\ result = "none" /\ written < taken
          /\ LET i == written + 1 IN Items[i] # "e" /\ (IsFile(i) => i \in finished)
          /\ written' = written + 1 /\ UNCHANGED <<taken, opened, finished, result>>
AFail == /\ result = "none" /\ \E i \in finished : Items[i] = "e"
         /\ result' = "error" /\ UNCHANGED <<taken, opened, finished, written>>
ADone == /\ result = "none" /\ written = N
         /\ result' = "ok" /\ UNCHANGED <<taken, opened, finished, written>>

ANext == ATake \/ AWrite \/ AFail \/ ADone \/ \E i \in 1..N : AOpen(i) \/ AFinish(i)
ASpec == AInit /\ [][ANext /\ UNCHANGED params]_<<avars, params>>

=============================================================================
