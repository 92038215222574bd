------------------------------ MODULE Resources ------------------------------
(***************************************************************************)
(* What a process holds on to because of its keys: open files, mapped      *)
(* pages, goroutines, slots of the caches on disk, and files.              *)
(*                                                                         *)
(* Histories of the real code: after every operation (successful or not),  *)
(* when nothing is going on any more, what is in use was counted.  A       *)
(* history is accepted if there is never more in use than the open keys    *)
(* and the subtrees in their caches account for.                           *)
(***************************************************************************)
EXTENDS FileFormat, Sequences, FiniteSets, TLC, Json

Histories == ndJsonDeserialize("histories.ndjson")

CONSTANTS
  FilesPerKey,   \* files a key may keep open
  WorkersPerKey  \* goroutines it may keep

VARIABLES
  t, i,
  open,    \* paths of which a handle is open
  high,    \* path -> most subtrees its cache had to hold at once since it was reset
  alloc,   \* path -> subtrees in the cache file
  messy,   \* paths at which an operation was disturbed: files may remain
  stale    \* ... and the lock may
vars == <<t, i, open, high, alloc, messy, stale>>

H == Histories[t]
Paths == 1 .. Len(H.paths)
E == H.ev[i + 1]

Init == /\ t \in 1 .. Len(Histories) /\ i = 0
        /\ open = {} /\ messy = {} /\ stale = {}
        /\ high = [p \in Paths |-> 0] /\ alloc = [p \in Paths |-> 0]

Max(a, b) == IF a > b THEN a ELSE b
\* E.live: the number of subtrees after each operation on the cache; -1 if it
\* is a new one
RECURSIVE Highest(_, _)
Highest(h, l) == IF l = <<>> THEN h
                 ELSE Highest(IF Head(l) = -1 THEN 0 ELSE Max(h, Head(l)), Tail(l))

Step(e) ==
  LET p == e.p d == H.paths[p].d IN
  CASE e.op \in {"Create", "Load"} ->
         \* (whether it has to succeed is for others)
         /\ open' = IF e.ok THEN open \cup {p} ELSE open
         /\ high' = [high EXCEPT ![p] = Highest(@, e.live)]
    [] e.op \in {"Sign", "Precompute", "Borrow", "Jump"} ->
         \* (on the key which was opened last; it may be closed already if the
         \*  closing was disturbed)
         /\ UNCHANGED open
         /\ high' = [high EXCEPT ![p] = Highest(@, e.live)]
    [] e.op = "Close" ->
         \* A disturbed one may leave the key open.
         /\ open' = IF e.ok \/ ~e.disturbed THEN open \ {p} ELSE open
         /\ high' = [high EXCEPT ![p] = Highest(@, e.live)]
    [] e.op = "Generate" -> \* a key is made, or replaced, and closed
         /\ UNCHANGED open
         /\ high' = [high EXCEPT ![p] = IF e.ok THEN d ELSE Max(@, d)]
    [] e.op = "Raw" -> \* a container which is not that of a key
         /\ UNCHANGED open
         /\ high' = [high EXCEPT ![p] = Highest(@, e.live)]
    [] e.op = "SignOnce" ->
         \* If it succeeds, the key had been closed.
         /\ open' = IF e.ok THEN open \ {p} ELSE open
         /\ high' = [high EXCEPT ![p] = IF e.ok \/ p \notin open
                                        THEN Max(@, alloc[p] + d) ELSE @]
    [] e.op = "Damage" -> \* not by the library
         /\ UNCHANGED open
         /\ high' = [high EXCEPT ![p] = Max(@, e.now[p].slots)]

\* What is counted, for the path p
Accounted(e, p) ==
  LET n == e.now[p]
      q == H.paths[p]
  IN
  /\ n.files <= IF p \in open' THEN FilesPerKey ELSE 0
  /\ n.pages <= IF p \in open' THEN n.live * (Entry(q) \div 4096 + 2) ELSE 0
  /\ n.size <= Slot(q, n.al, high'[p]) \/ n.size <= 17
  /\ \A x \in {n.names[k] : k \in 1 .. Len(n.names)} :
       \/ x \in {"key", "key.cache"}
       \/ x = "key.lock" /\ p \in open' \cup stale'
       \/ x = "key.tmp" /\ p \in messy'

Next ==
  /\ i < Len(H.ev) /\ i' = i + 1 /\ UNCHANGED t
  /\ Step(E)
  /\ messy' = IF E.disturbed THEN messy \cup {E.p} ELSE messy
  /\ stale' = IF E.disturbed THEN stale \cup {E.p}
              ELSE IF E.op = "Close" /\ E.ok THEN stale \ {E.p} ELSE stale
  /\ alloc' = [p \in Paths |-> E.now[p].alloc]
  /\ \A p \in Paths : Accounted(E, p)
  /\ E.other = 0
  /\ E.workers <= WorkersPerKey * Cardinality(open')

Spec == Init /\ [][Next]_vars
Told == PrintT(<<"at", t, i>>)
=============================================================================
