------------------------------- MODULE KeyGen -------------------------------
(***************************************************************************)
(* Generating keys from the system's source of randomness.                 *)
(*                                                                         *)
(* The source is a stream of bytes which are handed out once, in pieces of *)
(* any size.  A generated key consists of three seeds of N bytes each, and *)
(* every byte of them is a byte of its own, drawn for this key: no byte of *)
(* the stream serves twice, in one key or in two, and none is made up.  If *)
(* the source fails before the seeds are complete, no key comes into being *)
(* and what was stored before stays.                                       *)
(*                                                                         *)
(* Trace acceptance: Histories holds what was observed of the real code    *)
(* (see /verif/harness/keygen.go), a sequence of attempts per history.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Histories == ndJsonDeserialize("traces.ndjson")

VARIABLES
  h,       \* the history
  i,       \* attempts so far
  pos,     \* bytes handed out so far
  used,    \* intervals <<from, length>> of the stream which are part of keys
  stored   \* path -> the key there (0: none)
vars == <<h, i, pos, used, stored>>

Init == h \in 1 .. Len(Histories) /\ i = 0 /\ pos = 0 /\ used = {} /\ stored = [p \in 1 .. 3 |-> 0]

Disjoint(a, b) == a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
Pairwise(S) == \A a \in S : \A b \in S : a = b \/ Disjoint(a, b)

(* The source hands out everything from pos up to e.to.                    *)
Draw(e) == e.from = pos /\ e.to >= pos /\ pos' = e.to

Seeds(e) == {<<e.seeds[k], e.n>> : k \in 1 .. 3}

(* Enough was drawn; the seeds are three different pieces of what was drawn *)
Generated(e) ==
  /\ e.ok
  /\ Cardinality(Seeds(e)) = 3
  /\ \A s \in Seeds(e) : s[1] >= e.from /\ s[1] + s[2] <= e.to
  /\ Pairwise(Seeds(e))
  /\ used' = used \cup Seeds(e)
  /\ e.stored = e.id   \* that is the key that's there now
  /\ stored' = [stored EXCEPT ![e.path] = e.id]

(* Several keys in one process, one after another or at the same time: the *)
(* pieces of the stream may be dealt in any order, but only once.          *)
ManySeeds(e) == {<<e.many[k][l], e.n>> : k \in 1 .. e.count, l \in 1 .. 3}
Many(e) ==
  /\ e.ok
  /\ Len(e.many) = e.count
  /\ Cardinality(ManySeeds(e)) = 3 * e.count
  /\ \A s \in ManySeeds(e) : s[1] >= e.from /\ s[1] + s[2] <= e.to
  /\ Pairwise(ManySeeds(e))
  /\ used' = used \cup ManySeeds(e)
  /\ UNCHANGED stored

(* It may only fail for a reason. *)
Failed(e) ==
  /\ ~e.ok
  /\ e.broken \/ e.locked
  /\ e.stored = stored[e.path]
  /\ UNCHANGED <<used, stored>>

Attempt ==
  /\ i < Len(Histories[h])
  /\ i' = i + 1
  /\ UNCHANGED h
  /\ LET e == Histories[h][i + 1] IN Draw(e) /\ IF "many" \in DOMAIN e THEN Many(e) ELSE Generated(e) \/ Failed(e)

(* For the harness: which histories were accepted as a whole, and how far   *)
(* the others went.                                                         *)
Told ==
  /\ PrintT(<<"at", h, i>>)
Done == i = Len(Histories[h]) => Pairwise(used)

Next == Attempt
Spec == Init /\ [][Next]_vars
=============================================================================
