----------------------------- MODULE CacheLife -----------------------------
(***************************************************************************)
(* What a user sees of a key whose cache of subtrees is damaged, replaced  *)
(* or left behind by a crash in between: nothing.  The state of the cache  *)
(* is no part of what determines the outcome of the operations; it is      *)
(* SubTreeCache.tla which models it.  The real key is walked along the     *)
(* transition system of this module, with real damage; "right" is observed *)
(* if the public key or signature is the very one of a fresh cache.        *)
(***************************************************************************)
EXTENDS Naturals, TLC, Json

CONSTANTS
  Cap,       \* numbers 0 .. Cap-1
  Skips,     \* by how much to advance the next number by hand
  Damages,   \* ways to damage the cache (of a closed key)
  InFlight   \* operations to crash in

VARIABLES open, pre, next, lb, ub, act
vars == <<open, pre, next, lb, ub, act>>
view == <<open, pre, next, lb, ub>>

Max(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ open = TRUE /\ pre = FALSE /\ next = 0 /\ lb = 0 /\ ub = 0
  /\ act = [a |-> [op |-> "Init"], o |-> [ok |-> TRUE]]

Do(a, o) == act' = [a |-> a, o |-> o]

Sign ==
  /\ open
  /\ IF next < Cap
     THEN /\ next' = next + 1 /\ lb' = next + 1 /\ ub' = next + 1
          /\ Do([op |-> "Sign"], [ok |-> TRUE, seq |-> next, right |-> TRUE])
     ELSE /\ Do([op |-> "Sign"], [ok |-> FALSE])
          /\ UNCHANGED <<next, lb, ub>>
  /\ UNCHANGED <<open, pre>>

Skip(d) ==
  /\ open /\ next + d <= Cap
  /\ next' = next + d /\ ub' = Max(ub, next + d)
  /\ Do([op |-> "Skip", d |-> d], [ok |-> TRUE])
  /\ UNCHANGED <<open, pre, lb>>

Precompute ==
  /\ open /\ ~pre /\ pre' = TRUE
  /\ Do([op |-> "Precompute"], [ok |-> TRUE])
  /\ UNCHANGED <<open, next, lb, ub>>

Close ==
  /\ open /\ open' = FALSE /\ pre' = FALSE
  /\ Do([op |-> "Close"], [ok |-> TRUE])
  /\ UNCHANGED <<next, lb, ub>>

Crash ==
  /\ open /\ open' = FALSE /\ pre' = FALSE
  /\ Do([op |-> "Crash"], [ok |-> TRUE])
  /\ UNCHANGED <<next, lb, ub>>

(* A crash in the middle of an operation.  The cache is left as any mix of *)
(* what it was on the way (how).                                           *)
CrashIn(op, how) ==
  /\ IF op = "Load" THEN ~open ELSE open
  /\ op = "Sign" => next < Cap
  /\ open' = FALSE /\ pre' = FALSE
  /\ ub' = IF op = "Sign" THEN Max(ub, next + 1) ELSE ub
  /\ Do([op |-> "CrashIn", during |-> op, how |-> how], [ok |-> TRUE])
  /\ UNCHANGED <<next, lb>>

Load ==
  /\ ~open
  /\ \E s \in lb .. ub :
       /\ open' = TRUE /\ next' = s /\ lb' = s /\ ub' = s
       /\ Do([op |-> "Load"], [ok |-> TRUE, next |-> s, right |-> TRUE])
  /\ UNCHANGED pre

Damage(k) ==
  /\ ~open
  /\ Do([op |-> "Damage", kind |-> k], [ok |-> TRUE])
  /\ UNCHANGED <<open, pre, next, lb, ub>>

Next ==
  \/ Sign \/ Precompute \/ Close \/ Crash \/ Load
  \/ \E d \in Skips : Skip(d)
  \/ \E op \in InFlight, how \in {"then", "blocks", "zeros"} : CrashIn(op, how)
  \/ \E k \in Damages : Damage(k)
Spec == Init /\ [][Next]_vars

TypeOK == lb <= ub /\ ub <= Cap /\ (open => lb <= next /\ next <= ub)
(* The cache decides nothing: with the same operations there is one outcome *)
(* for everything but the number a crash interrupted.                       *)
Determined == [][(act'.a.op = "Sign" /\ next < Cap) => act'.o.seq = next /\ act'.o.right]_vars

Emit == PrintT(ToJson([s |-> view, a |-> act'.a, o |-> act'.o, t |-> view']))
=============================================================================
