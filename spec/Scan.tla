-------------------------------- MODULE Scan --------------------------------
(* Scanning: directories are taken from a work list, listed in whatever order *)
(* the system likes, their entries sorted and written, their sub-directories  *)
(* grouped by name over all overlaid trees and put in front of the work list. *)
(* One system call may fail. What has been written is a sequence of entries.  *)
EXTENDS Tree

CONSTANT Overlays        \* the overlays considered

NoFault == [op |-> "none", p |-> <<>>]

VARIABLES ov, fault, work, files, subs, out, status, hit
vars == <<ov, fault, work, files, subs, out, status, hit>>
\* work: sequence of [p |-> path, ls |-> sequence of listings to come]
\* files, subs: what remains of the directory being written
\* status: "open", "list", "write", "ok", or an error category; hit: the fault has been met

Faults(o) ==
    {NoFault, [op |-> "root", p |-> <<>>]}
    \cup {[op |-> "list", p |-> e.p] : e \in {x \in Range(Entries(o)) : x.k = "d"}}
    \cup {[op |-> "file", p |-> e.p] : e \in {x \in Range(Entries(o)) : x.k = "f"}}

Init ==
    /\ ov \in Overlays
    /\ fault \in Faults(ov)
    /\ work = <<>> /\ files = <<>> /\ subs = <<>> /\ out = <<>>
    /\ status = "open" /\ hit = FALSE

Fail(cat) == status' = cat /\ hit' = TRUE /\ UNCHANGED <<ov, fault, work, files, subs, out>>

OpenRoots ==
    /\ status = "open"
    /\ IF ov = <<>> THEN Fail("NoRoot")
       ELSE IF fault.op = "root" THEN Fail("OpenDir")
       ELSE /\ work' = <<[p |-> <<>>, ls |-> ov]>>
            /\ status' = "list"
            /\ UNCHANGED <<ov, fault, files, subs, out, hit>>

\* the system delivers the entries of a directory in any order; rotations and reversals suffice to
\* upset an implementation that does not sort, and keep the search small
Orders(s) == IF Len(s) = 0 THEN {s} ELSE {SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k) : k \in 0..Len(s) - 1} \cup {Reverse(s)}

RECURSIVE Delivered(_)
Delivered(ls) == IF ls = <<>> THEN {<<>>}
                 ELSE {a \o b : a \in Orders(ls[1]), b \in Delivered(Tail(ls))}

\* adjacent equal names form one group
RECURSIVE Groups(_, _)
Groups(path, ds) ==
    IF ds = <<>> THEN <<>>
    ELSE LET same == SelectSeq(ds, LAMBDA n : n.n = ds[1].n)
             rest == SelectSeq(ds, LAMBDA n : n.n # ds[1].n)
         IN  <<[p |-> Append(path, ds[1].n), ls |-> [i \in 1..Len(same) |-> same[i].c]]>> \o Groups(path, rest)

List ==
    /\ status = "list" /\ work # <<>>
    /\ IF fault.op = "list" /\ fault.p = work[1].p THEN Fail("ListDir")
       ELSE \E all \in Delivered(work[1].ls) :
            /\ files' = SortByName(SelectSeq(all, IsEntry))
            /\ subs' = Groups(work[1].p, SortByName(SelectSeq(all, IsDir)))
            /\ out' = Append(out, [k |-> "d", p |-> work[1].p])
            /\ status' = "write"
            /\ UNCHANGED <<ov, fault, work, hit>>

Write ==
    /\ status = "write" /\ files # <<>>
    /\ LET p == Append(work[1].p, files[1].n) IN
       IF fault.op = "file" /\ fault.p = p THEN Fail("ReadFile")
       ELSE /\ out' = Append(out, [k |-> "f", p |-> p, node |-> files[1]])
            /\ files' = Tail(files)
            /\ UNCHANGED <<ov, fault, work, subs, status, hit>>

Descend ==
    /\ status = "write" /\ files = <<>>
    /\ work' = subs \o Tail(work)
    /\ subs' = <<>>
    /\ status' = "list"
    /\ UNCHANGED <<ov, fault, files, out, hit>>

Finish ==
    /\ status = "list" /\ work = <<>>
    /\ status' = "ok"
    /\ UNCHANGED <<ov, fault, work, files, subs, out, hit>>

Next == OpenRoots \/ List \/ Write \/ Descend \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == status \notin {"open", "list", "write"}
\* the order in which equal names of several trees are delivered depends on the listing only within
\* one tree, where names are distinct
WritesCanonicalPrefix == IsPrefix(out, Entries(ov))
SuccessIsComplete == status = "ok" => out = Entries(ov) /\ ~hit /\ fault.op = "none"
FailureIsReported ==
    /\ hit => status = (CASE ov = <<>> -> "NoRoot" [] fault.op = "root" -> "OpenDir"
                          [] fault.op = "list" -> "ListDir" [] fault.op = "file" -> "ReadFile")
    /\ hit /\ ov # <<>> => Len(out) < Len(Entries(ov))
StrictlyIncreasing == Len(ov) = 1 => \A i \in 1..Len(out) - 1 : Lt(out[i], out[i + 1])
NothingTwice == Len(ov) = 1 => \A i, j \in 1..Len(out) : out[i].k = out[j].k /\ out[i].p = out[j].p => i = j
WeaklyIncreasing == \A i \in 1..Len(out) - 1 : Cmp(out[i], out[i + 1]) <= 0
EveryNodeOnce ==
    status = "ok" => \A i \in 1..Len(ov) : \A k \in 1..Len(ov[i]) :
        LET nd == ov[i][k] IN
        nd.t # "o" => \E e \in Range(out) : e.p = <<nd.n>> /\ e.k = (IF nd.t = "d" THEN "d" ELSE "f")
Terminates == <>Ended
=============================================================================
