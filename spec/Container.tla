----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* A private-key container: a persistent record (private key, parameters,  *)
(* next number, reservations) and a cache which maps addresses of subtrees *)
(* to buffers.  Everything survives closing and being killed; only Reset,  *)
(* ResetCache and DropSubTree forget subtrees.                             *)
(*                                                                         *)
(* This is the contract of the interface PrivateKeyContainer.  The real    *)
(* container is walked along the transition system of this module.         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS
  Addrs,      \* addresses of subtrees
  Tags,       \* contents the user writes into buffers
  Keys,       \* private keys (with parameters)
  Amounts,    \* to borrow
  Seqs,       \* numbers to set
  MaxSeq, MaxBor,  \* bounds
  Formats     \* formats of the cache file which are to be understood

VARIABLES
  handle,  \* "none": not open; "open"; "closed": closed, but still around
  key,     \* the stored key, 0 if none
  seq, bor,
  cache,   \* is there a (valid) cache?
  sub,     \* address -> "absent", "undef" (present, never written) or a tag
  act

vars == <<handle, key, seq, bor, cache, sub, act>>

Absent == [a \in Addrs |-> "absent"]
Live == {a \in Addrs : sub[a] # "absent"}

Init ==
  /\ handle = "none" /\ key = 0 /\ seq = 0 /\ bor = 0 /\ cache = FALSE
  /\ sub = Absent
  /\ act = [a |-> [op |-> "Init"], o |-> [ok |-> TRUE]]

(* What can be seen of the container at any time *)
View(h, k, s, b, c, u) ==
  IF h # "open" THEN [init |-> 0, cacheInit |-> FALSE, list |-> [a \in Addrs |-> FALSE],
                      has |-> [a \in Addrs |-> FALSE]]
  ELSE [init |-> k, cacheInit |-> c] @@
       (IF k # 0 THEN [seq |-> s, bor |-> b] ELSE [norec |-> TRUE]) @@
       [list |-> [a \in Addrs |-> c /\ u[a] # "absent"],
        has |-> [a \in Addrs |-> c /\ u[a] # "absent"]]

Do(a, o) == act' = [a |-> a, o |-> o @@ View(handle', key', seq', bor', cache', sub')]
Same == UNCHANGED <<handle, key, seq, bor, cache, sub>>

Open ==
  /\ handle # "open"
  /\ handle' = "open"
  /\ UNCHANGED <<key, seq, bor, cache, sub>>
  /\ Do([op |-> "Open"], [ok |-> TRUE])

Close ==
  /\ handle # "none"
  /\ handle' = "closed"
  /\ UNCHANGED <<key, seq, bor, cache, sub>>
  /\ Do([op |-> "Close"], [ok |-> handle = "open"])

(* The process is killed. *)
Kill ==
  /\ handle = "open"
  /\ handle' = "none"
  /\ UNCHANGED <<key, seq, bor, cache, sub>>
  /\ Do([op |-> "Kill"], [ok |-> TRUE])

(* Somebody removes the cache, or makes a mess of it. *)
LoseCache ==
  /\ handle = "none" /\ cache
  /\ cache' = FALSE /\ sub' = Absent
  /\ UNCHANGED <<handle, key, seq, bor>>
  /\ Do([op |-> "LoseCache"], [ok |-> TRUE])

(* The cache was written by another version or on another machine. *)
Convert(f) ==
  /\ handle = "none" /\ cache
  /\ Same
  /\ Do([op |-> "Convert", f |-> f], [ok |-> TRUE])

Reset(k) ==
  /\ handle # "none"
  /\ IF handle = "open"
     THEN /\ key' = k /\ seq' = 0 /\ bor' = 0 /\ cache' = TRUE /\ sub' = Absent
          /\ UNCHANGED handle
          /\ Do([op |-> "Reset", k |-> k], [ok |-> TRUE])
     ELSE Same /\ Do([op |-> "Reset", k |-> k], [ok |-> FALSE])

ResetCache ==
  /\ handle # "none"
  /\ IF handle = "open" /\ key # 0
     THEN /\ cache' = TRUE /\ sub' = Absent
          /\ UNCHANGED <<handle, key, seq, bor>>
          /\ Do([op |-> "ResetCache"], [ok |-> TRUE])
     ELSE Same /\ Do([op |-> "ResetCache"], [ok |-> FALSE])

Usable == handle = "open" /\ cache

(* Retrieves a subtree, allocating it if there is none *)
Get(a) ==
  /\ handle # "none"
  /\ IF Usable
     THEN /\ sub' = [sub EXCEPT ![a] = IF @ = "absent" THEN "undef" ELSE @]
          /\ UNCHANGED <<handle, key, seq, bor, cache>>
          /\ Do([op |-> "Get", a |-> a],
                [ok |-> TRUE, exists |-> sub[a] # "absent"] @@
                (IF sub[a] \in Tags THEN [content |-> sub[a]] ELSE [new |-> TRUE]))
     ELSE Same /\ Do([op |-> "Get", a |-> a], [ok |-> FALSE])

(* Writes to a buffer that was retrieved earlier with this handle (or now). *)
Write(a, t) ==
  /\ Usable /\ sub[a] # "absent"
  /\ sub' = [sub EXCEPT ![a] = t]
  /\ UNCHANGED <<handle, key, seq, bor, cache>>
  /\ Do([op |-> "Write", a |-> a, t |-> t], [ok |-> TRUE])

Drop(a) ==
  /\ handle # "none"
  /\ IF Usable
     THEN /\ sub' = [sub EXCEPT ![a] = "absent"]
          /\ UNCHANGED <<handle, key, seq, bor, cache>>
          /\ Do([op |-> "Drop", a |-> a], [ok |-> TRUE])
     ELSE Same /\ Do([op |-> "Drop", a |-> a], [ok |-> FALSE])

HasRecord == handle = "open" /\ key # 0

Borrow(n) ==
  /\ handle # "none"
  /\ IF HasRecord
     THEN /\ seq' = seq + n /\ bor' = bor + n
          /\ UNCHANGED <<handle, key, cache, sub>>
          /\ Do([op |-> "Borrow", n |-> n], [ok |-> TRUE, from |-> seq])
     ELSE Same /\ Do([op |-> "Borrow", n |-> n], [ok |-> FALSE])

(* More than can be recorded *)
BorrowTooMuch ==
  /\ handle # "none"
  /\ HasRecord => bor > 0
  /\ Same /\ Do([op |-> "BorrowTooMuch"], [ok |-> FALSE])

SetSeqNo(s) ==
  /\ handle # "none"
  /\ IF HasRecord
     THEN /\ seq' = s /\ bor' = 0
          /\ UNCHANGED <<handle, key, cache, sub>>
          /\ Do([op |-> "SetSeqNo", s |-> s], [ok |-> TRUE])
     ELSE Same /\ Do([op |-> "SetSeqNo", s |-> s], [ok |-> FALSE])

(* The same while storage refuses to be written to, if the implementation   *)
(* notices: then an error is returned and nothing changes.                 *)
BlockedBorrow(n) ==
  /\ HasRecord
  /\ \/ /\ Same
        /\ Do([op |-> "Borrow", n |-> n, blocked |-> TRUE], [ok |-> FALSE])
     \/ /\ seq' = seq + n /\ bor' = bor + n
        /\ UNCHANGED <<handle, key, cache, sub>>
        /\ Do([op |-> "Borrow", n |-> n, blocked |-> TRUE], [ok |-> TRUE, from |-> seq])

BlockedSetSeqNo(s) ==
  /\ HasRecord
  /\ \/ /\ Same
        /\ Do([op |-> "SetSeqNo", s |-> s, blocked |-> TRUE], [ok |-> FALSE])
     \/ /\ seq' = s /\ bor' = 0
        /\ UNCHANGED <<handle, key, cache, sub>>
        /\ Do([op |-> "SetSeqNo", s |-> s, blocked |-> TRUE], [ok |-> TRUE])

(* GetSeqNo, GetPrivateKey and ListSubTrees: the values are part of View *)
Query ==
  /\ handle # "none"
  /\ Same
  /\ Do([op |-> "Query"],
        [ok |-> TRUE, getSeqNo |-> HasRecord, getKey |-> HasRecord, listOk |-> Usable])

Next ==
  \/ Open \/ Close \/ Kill \/ LoseCache \/ ResetCache \/ BorrowTooMuch \/ Query
  \/ \E f \in Formats : Convert(f)
  \/ \E k \in Keys : Reset(k)
  \/ \E a \in Addrs : Get(a) \/ Drop(a) \/ \E t \in Tags : Write(a, t)
  \/ \E n \in Amounts : Borrow(n) \/ BlockedBorrow(n)
  \/ \E s \in Seqs : SetSeqNo(s) \/ BlockedSetSeqNo(s)

Spec == Init /\ [][Next]_vars
Bounded == seq <= MaxSeq /\ bor <= MaxBor

----------------------------------------------------------------------------
TypeOK ==
  /\ handle \in {"none", "open", "closed"}
  /\ key \in {0} \cup Keys /\ cache \in BOOLEAN
  /\ key = 0 => ~cache /\ seq = 0 /\ bor = 0
  /\ ~cache => sub = Absent

(* A subtree exists exactly from its first retrieval to when it is dropped *)
(* or the cache is reset; closing and killing preserve everything.         *)
Faithful ==
  [][ /\ act'.a.op \in {"Open", "Close", "Kill", "Query", "Convert"}
         => UNCHANGED <<key, seq, bor, cache, sub>>
      /\ ~act'.o.ok => Same
      /\ \A a \in Addrs :
           (sub[a] # "absent" /\ sub'[a] = "absent")
             => act'.a.op \in {"Reset", "ResetCache", "LoseCache"} \/ act'.a = [op |-> "Drop", a |-> a]
      /\ \A a \in Addrs :
           (sub[a] = "absent" /\ sub'[a] # "absent") => act'.a = [op |-> "Get", a |-> a]
      /\ \A a \in Addrs :
           (sub[a] \in Tags /\ sub'[a] \in Tags /\ sub[a] # sub'[a])
             => act'.a.op = "Write" /\ act'.a.a = a
      /\ bor' < bor => act'.a.op \in {"SetSeqNo", "Reset"}
    ]_vars

----------------------------------------------------------------------------
St(h, k, s, b, c, u) == [handle |-> h, key |-> k, seq |-> s, bor |-> b, cache |-> c, sub |-> u]
Emit ==
  /\ PrintT(ToJson([s |-> St(handle, key, seq, bor, cache, sub),
                    a |-> act'.a, o |-> act'.o,
                    t |-> St(handle', key', seq', bor', cache', sub')]))
  /\ Bounded'
view == <<handle, key, seq, bor, cache, sub>>
=============================================================================
