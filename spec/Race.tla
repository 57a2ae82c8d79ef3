-------------------------------- MODULE Race --------------------------------
(* A scan of a tree that changes under it. Directories are objects that hold  *)
(* names of objects; the scan holds directories, resolves names when it needs *)
(* them, and does not follow links. The environment may remove, replace,      *)
(* rename and resize things between any two steps of the scan.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Names,      \* 1..n
          Changes,    \* how many changes at most
          Follow      \* FALSE; TRUE for a scan that follows links (which must not pass)

\* objects: 1 is the root; 9 and 8 are a directory outside and its file
Root == 1
Outside == {8, 9}
Objects == 1..7 \cup Outside
Free == {6, 7}        \* what replacements are made of

VARIABLES kind,       \* object -> "d", "f", "s" or "free"
          ent,        \* directory -> name -> object, 0: no such name
          size,       \* file -> number of blocks
          left,       \* changes left
          was,        \* every <<directory, name, kind>> there ever was
          found,      \* path -> the directories that were found there
          work,       \* <<[p, d, n]>>: paths of directories to come, the directory they were named in
          cur, todo,  \* the directory being written, what it listed: <<[n, k]>>
          pend,       \* the file being read: <<>> or <<[n, o, sz, got]>>
          out, status
vars == <<kind, ent, size, left, was, found, work, cur, todo, pend, out, status>>

None == [n \in Names |-> 0]
Facts(k, e) == {<<d, n, k[e[d][n]]>> : d \in {x \in Objects : k[x] = "d"}, n \in Names}
Known(k, e) == {<<d, n, k[e[d][n]]>> : <<d, n>> \in {x \in {y \in Objects : k[y] = "d"} \X Names : e[x[1]][x[2]] # 0}}

\* the root holds a file, a directory with a file and a link, or the like
Start(a, b) ==
    /\ kind = [o \in Objects |-> CASE o \in {1, 9} -> "d" [] o = 2 -> a [] o = 3 -> b [] o \in {4, 8} -> "f" [] o = 5 -> "s" [] OTHER -> "free"]
    /\ ent = [d \in Objects |-> CASE d = 1 -> [None EXCEPT ![1] = 2, ![2] = 3]
                                  [] d = 2 /\ a = "d" -> [None EXCEPT ![1] = 4, ![2] = 5]
                                  [] d = 3 /\ b = "d" /\ a # "d" -> [None EXCEPT ![1] = 4, ![2] = 5]
                                  [] d = 9 -> [None EXCEPT ![1] = 8]
                                  [] OTHER -> None]
Init ==
    /\ \E a, b \in {"f", "d", "s"} : Start(a, b)
    /\ size = [o \in Objects |-> 1]
    /\ left = Changes
    /\ was = Known(kind, ent)
    /\ found = {}
    /\ work = <<>> /\ cur = 0 /\ todo = <<>> /\ pend = <<>> /\ out = <<>>
    /\ status = "open"

-----------------------------------------------------------------------------
\* the directories in an object
RECURSIVE Within(_)
Within(o) == IF kind[o] # "d" THEN {} ELSE {o} \cup UNION {Within(ent[o][n]) : n \in {m \in Names : ent[o][m] # 0}}
Put(d, n, o) ==
    /\ ent' = [ent EXCEPT ![d][n] = o]
    /\ was' = was \cup Known(kind', ent')
Change ==
    /\ status \notin {"ok", "error"} /\ left > 0 /\ left' = left - 1
    /\ UNCHANGED <<found, work, cur, todo, pend, out, status>>
    /\ \/ \* removed
          \E d \in {x \in 1..7 : kind[x] = "d"}, n \in Names :
             ent[d][n] # 0 /\ kind' = kind /\ size' = size /\ Put(d, n, 0)
       \/ \* replaced by, or created as, something new
          \E d \in {x \in 1..7 : kind[x] = "d"}, n \in Names, o \in Free, k \in {"f", "s", "d"}, s \in {0, 2} :
             kind[o] = "free" /\ (\A q \in Free : q < o => kind[q] # "free")
             /\ (k # "f" => s = 0) /\ kind' = [kind EXCEPT ![o] = k] /\ size' = [size EXCEPT ![o] = s] /\ Put(d, n, o)
       \/ \* renamed
          \E d, e \in {x \in 1..7 : kind[x] = "d"}, n, m \in Names :
             /\ ent[d][n] # 0 /\ <<d, n>> # <<e, m>> /\ e \notin Within(ent[d][n])
             /\ kind' = kind /\ size' = size
             /\ ent' = [ent EXCEPT ![e][m] = ent[d][n], ![d][n] = 0]
             /\ was' = was \cup Known(kind, ent')
       \/ \* truncated or extended
          \E o \in {x \in 1..7 : kind[x] = "f"}, s \in 0..2 :
             s # size[o] /\ size' = [size EXCEPT ![o] = s] /\ UNCHANGED <<kind, ent, was>>

-----------------------------------------------------------------------------
\* a link leads outside: to the directory, or to the file in it
Target(o, want) == IF kind[o] = "s" /\ Follow THEN (IF want = "d" THEN 9 ELSE 8) ELSE o
Fail == status' = "error" /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, todo, pend, out>>

Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a.n < b.n)
ListInto(d, p) ==
    /\ found' = found \cup {<<p, d>>}
    /\ cur' = [d |-> d, p |-> p]
    /\ todo' = Sorted({[n |-> n, k |-> kind[ent[d][n]]] : n \in {m \in Names : ent[d][m] # 0}})
    /\ out' = Append(out, [k |-> "d", p |-> p])

Open ==
    /\ status = "open"
    /\ ListInto(Root, <<>>)
    /\ status' = "write"
    /\ UNCHANGED <<kind, ent, size, left, was, work, pend>>
Next1 == SelectSeq(todo, LAMBDA x : x.k # "d")
Begin ==
    /\ status = "write" /\ pend = <<>> /\ Next1 # <<>>
    /\ LET x == Next1[1]
           o == ent[cur.d][x.n]
           rest == SelectSeq(todo, LAMBDA y : y.n # x.n)
       IN  IF o = 0 THEN Fail
           ELSE IF x.k = "s"
           THEN IF kind[o] # "s" THEN Fail
                ELSE /\ out' = Append(out, [k |-> "s", p |-> Append(cur.p, x.n), d |-> cur.d, n |-> x.n])
                     /\ todo' = rest
                     /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, pend, status>>
           ELSE LET t == Target(o, "f") IN
                IF kind[t] # "f" THEN Fail
                ELSE /\ pend' = <<[n |-> x.n, o |-> t, sz |-> -1, got |-> 0]>>
                     /\ todo' = rest
                     /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, out, status>>
Examine ==
    /\ pend # <<>> /\ pend[1].sz = -1 /\ status = "write"
    /\ pend' = <<[pend[1] EXCEPT !.sz = size[pend[1].o]]>>
    /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, todo, out, status>>
\* one digest for each block the size announces, whatever is left to read
Block ==
    /\ pend # <<>> /\ pend[1].sz > pend[1].got /\ status = "write"
    /\ pend' = <<[pend[1] EXCEPT !.got = @ + 1]>>
    /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, todo, out, status>>
Record ==
    /\ pend # <<>> /\ pend[1].sz = pend[1].got /\ status = "write"
    /\ out' = Append(out, [k |-> "f", p |-> Append(cur.p, pend[1].n), d |-> cur.d, n |-> pend[1].n, sz |-> pend[1].sz, digs |-> pend[1].got, o |-> pend[1].o])
    /\ pend' = <<>>
    /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, todo, status>>
Descend ==
    /\ status = "write" /\ pend = <<>> /\ Next1 = <<>>
    /\ work' = [i \in 1..Len(todo) |-> [p |-> Append(cur.p, todo[i].n), d |-> cur.d, n |-> todo[i].n]] \o work
    /\ todo' = <<>>
    /\ status' = "next"
    /\ UNCHANGED <<kind, ent, size, left, was, found, cur, pend, out>>
Enter ==
    /\ status = "next" /\ work # <<>>
    /\ LET w == work[1]
           o == ent[w.d][w.n]
       IN  IF o = 0 THEN Fail
           ELSE IF kind[Target(o, "d")] # "d" THEN Fail
           ELSE /\ ListInto(Target(o, "d"), w.p)
                /\ work' = Tail(work) /\ status' = "write"
                /\ UNCHANGED <<kind, ent, size, left, was, pend>>
Done == status = "next" /\ work = <<>> /\ status' = "ok" /\ UNCHANGED <<kind, ent, size, left, was, found, work, cur, todo, pend, out>>
Next == Change \/ Open \/ Begin \/ Examine \/ Block \/ Record \/ Descend \/ Enter \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Begin \/ Examine \/ Block \/ Record \/ Descend \/ Enter \/ Done)

-----------------------------------------------------------------------------
RECURSIVE Less(_, _)
Less(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE ELSE IF p[1] # q[1] THEN p[1] < q[1] ELSE Less(Tail(p), Tail(q))
Home(e) == IF e.k = "d" THEN e.p ELSE SubSeq(e.p, 1, Len(e.p) - 1)
Before(e, f) == \/ Less(Home(e), Home(f))
                \/ Home(e) = Home(f) /\ (IF e.k = "d" THEN f.k # "d" ELSE f.k # "d" /\ Less(e.p, f.p))
Canonical == \A i \in 1..Len(out) - 1 : Before(out[i], out[i + 1])
\* what is recorded was in the directory found at its path
Real == \A e \in Range(out) : e.k # "d" => /\ <<e.d, e.n, e.k>> \in was /\ <<Home(e), e.d>> \in found
RealDirs == \A x \in found : x[1] # <<>> =>
                \E y \in found : y[1] = SubSeq(x[1], 1, Len(x[1]) - 1) /\ <<y[2], x[1][Len(x[1])], "d">> \in was
Inside == \A e \in Range(out) : e.k # "d" => e.d \notin Outside /\ (e.k = "f" => e.o \notin Outside)
InsideDirs == \A x \in found : x[2] \notin Outside
Counted == \A e \in Range(out) : e.k = "f" => e.digs = e.sz
\* without changes nothing fails, and nothing is missing
Quiet == left = Changes => status # "error"
Ends == <>(status \in {"ok", "error"})
=============================================================================
