------------------------------- MODULE MCScan -------------------------------
(* Exhaustive search of Scan over all small trees and overlays, and the list  *)
(* of these trees for replay.                                                 *)
EXTENDS Scan, IOUtils

\* names whose order as components differs from their order within whole paths
NA == <<97>>
NB == <<97, 33>>
NC == <<97, 98>>
NX == <<255>>

Kinds0 == {[t |-> "f", x |-> FALSE, sz |-> "0", h |-> <<>>], [t |-> "s", l |-> <<46>>], [t |-> "d", c |-> <<>>]}
Named(n, k) == CASE k.t = "f" -> [n |-> n, t |-> "f", x |-> k.x, sz |-> k.sz, h |-> k.h]
                 [] k.t = "s" -> [n |-> n, t |-> "s", l |-> k.l]
                 [] k.t = "o" -> [n |-> n, t |-> "o"]
                 [] k.t = "d" -> [n |-> n, t |-> "d", c |-> k.c]
\* all directories with at most one node for each of the names
RECURSIVE Level(_, _)
Level(names, kinds) ==
    IF names = <<>> THEN {<<>>}
    ELSE LET rest == Level(Tail(names), kinds)
         IN  rest \cup {<<Named(names[1], k)>> \o r : k \in kinds, r \in rest}
SubDirs(names, kinds) == {[t |-> "d", c |-> c] : c \in Level(names, kinds)}

File0 == [t |-> "f", x |-> TRUE, sz |-> "0", h |-> <<>>]
Other == [t |-> "o"]
T1 == Level(<<NA, NB>>, Kinds0)                                   \* 16
T2 == Level(<<NA, NB, NC>>, {File0, [t |-> "s", l |-> <<46>>]} \cup SubDirs(<<NA, NB>>, {File0, [t |-> "d", c |-> <<>>]}))
T3 == Level(<<NA, NX>>, {File0, Other} \cup SubDirs(<<NB>>, {File0} \cup SubDirs(<<NA, NC>>, {File0, [t |-> "d", c |-> <<>>]})))
Overlays1 == {<<t>> : t \in T1 \cup T2 \cup T3}
Overlays2 == {<<t, u>> : t \in T1, u \in Level(<<NA, NC>>, Kinds0 \cup SubDirs(<<NA>>, {File0}))}
             \cup {<<t, u, t>> : t \in Level(<<NA>>, Kinds0 \cup SubDirs(<<NA>>, {File0})), u \in T1}
AllOverlays == {<<>>} \cup Overlays1 \cup Overlays2
\* for the check with every fault and order, a part of them
Small == {<<>>} \cup {<<t>> : t \in T1 \cup T3} \cup {<<t, u>> : t \in T1, u \in T1}

\* printing the trees (the parameter keeps TLC from evaluating this beforehand)
Gen(x) == \A o \in AllOverlays : PrintT("@@" \o ToJson([ov |-> o, x |-> x]))
GenInit == /\ ov = <<>> /\ fault = NoFault /\ work = <<>> /\ files = <<>> /\ subs = <<>> /\ out = <<>>
           /\ status = "gen" /\ hit = FALSE
GenNext == status = "gen" /\ Gen(status) /\ status' = "generated" /\ UNCHANGED <<ov, fault, work, files, subs, out, hit>>
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
