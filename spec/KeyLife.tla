------------------------------ MODULE KeyLife ------------------------------
(***************************************************************************)
(* The life of one private key as its user observes it: handing out        *)
(* sequence numbers, reserving them (BorrowExactly), failing storage,      *)
(* crashing, closing and loading again.                                    *)
(*                                                                         *)
(* This is the property-level specification: it says which outcomes are    *)
(* allowed, not how the code achieves them.  The real code is run against  *)
(* the transition system of this module (see /verif/harness/keylife.go).   *)
(*                                                                         *)
(* Numbers are relative to a base chosen by the harness.                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS
  Cap,       \* numbers 0 .. Cap-1 are usable (MaxSignatureSeqNo of the code)
  MaxNext,   \* bounds of the exploration
  MaxLost,
  Amounts,   \* amounts to reserve
  Faults,    \* behaviours of the storage during an operation, of "none",
             \* "before"/"after": the first update fails and is not/is applied,
             \* "before2"/"after2": the same for the second update, if any
  Dangers,   \* by how much DangerousSetSeqNo moves forward
  Helper     \* whether to use the package-level Sign(path, msg)

VARIABLES
  open,  \* is there a handle?
  next,  \* next number of the handle; when closed: the least number that is free
  bor,   \* reserved numbers of the handle
  lb,    \* the stored next number is at least lb (safety!) ...
  ub,    \* ... and at most ub
  lostUb,  \* number of lost signatures a load may report at most
  lostSet, \* if not empty: a load reports one of these (nothing recorded since)
  slack,   \* a storage operation failed: reservations might be skipped unreported
  act      \* the last action with what was observed

vars == <<open, next, bor, lb, ub, lostUb, lostSet, slack, act>>
view == <<open, next, bor, lb, ub, lostUb, lostSet, slack>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ open = TRUE /\ next = 0 /\ bor = 0
  /\ lb = 0 /\ ub = 0 /\ lostUb = 0 /\ lostSet = {0} /\ slack = FALSE
  /\ act = [a |-> [op |-> "Init"], o |-> [ok |-> TRUE]]

(* What the handle answers to SeqNo() and BorrowedSeqNos(). *)
Obs(n, b) == [next |-> n, bor |-> b]

(* Bookkeeping of a number being used up by the handle. *)
Consume ==
  /\ next' = next + 1
  /\ IF bor > 0
     THEN /\ bor' = bor - 1
          /\ lb' = next + 1
          /\ ub' = Max(ub, next + 1)
          /\ lostSet' = {}
          /\ UNCHANGED <<lostUb, slack>>
     ELSE /\ bor' = 0
          /\ lb' = next + 1 /\ ub' = next + 1
          /\ lostUb' = 0 /\ lostSet' = {0} /\ slack' = FALSE

Second == {"before2", "after2"}

(* Sign, with storage behaving as f.  f matters only if storage is used;   *)
(* with a reservation it need not be, and without it one update suffices.  *)
SignOk(f) ==
  /\ open /\ next < Cap
  /\ f = "none" \/ bor > 0 \/ f \in Second
  /\ Consume
  /\ act' = [a |-> [op |-> "Sign", f |-> f],
             o |-> [ok |-> TRUE, seq |-> next] @@ Obs(next', bor')]
  /\ UNCHANGED open

(* The storage failed: no signature.  What was attempted might be stored.  *)
SignFail(f) ==
  /\ open /\ next < Cap /\ f # "none"
  /\ next' \in {next, next + 1}
  /\ bor' \in 0 .. bor
  /\ ub' = Max(ub, next + 1)
  /\ slack' = TRUE /\ lostSet' = {}
  /\ act' = [a |-> [op |-> "Sign", f |-> f],
             o |-> [ok |-> FALSE] @@ Obs(next', bor')]
  /\ UNCHANGED <<open, lb, lostUb>>

(* All numbers are used: fails and changes nothing. *)
SignExhausted(f) ==
  /\ open /\ next >= Cap
  /\ act' = [a |-> [op |-> "Sign", f |-> f],
             o |-> [ok |-> FALSE] @@ Obs(next, bor)]
  /\ UNCHANGED <<open, next, bor, lb, ub, lostUb, lostSet, slack>>

(* The reader with the message fails: the number is wasted. *)
SignBadReader ==
  /\ open /\ next < Cap
  /\ Consume
  /\ act' = [a |-> [op |-> "SignBadReader"],
             o |-> [ok |-> FALSE] @@ Obs(next', bor')]
  /\ UNCHANGED open

(* Reserve exactly n numbers. *)
BorrowOk(op, n, t, f) ==
  /\ f = "none" \/ f \in Second \/ n < bor
  /\ bor' = n
  /\ IF n = bor THEN UNCHANGED <<lb, ub, lostUb, lostSet, slack>>
     ELSE /\ IF n > bor
             THEN /\ ub' = Max(ub, next + n)
                  /\ lostUb' = lostUb + (n - bor)
             ELSE /\ ub' = IF slack \/ f # "none" THEN Max(ub, next + n) ELSE next + n
                  /\ lostUb' = Max(lostUb, n)
          /\ lb' = Min(lb, next)
          /\ lostSet' = {}
          /\ UNCHANGED slack
  /\ act' = [a |-> [op |-> op, n |-> n, t |-> t, f |-> f],
             o |-> [ok |-> TRUE] @@ Obs(next, n)]
  /\ UNCHANGED <<open, next>>

BorrowFail(op, n, t, f) ==
  /\ f # "none"
  /\ n # bor
  /\ bor' \in 0 .. bor
  /\ ub' = Max(ub, next + n)
  /\ lostUb' = lostUb + n
  /\ lostSet' = {} /\ slack' = TRUE
  /\ act' = [a |-> [op |-> op, n |-> n, t |-> t, f |-> f],
             o |-> [ok |-> FALSE] @@ Obs(next, bor')]
  /\ UNCHANGED <<open, next, lb>>

(* A faulty storage need not be used (or not where we inject the fault). *)
BorrowLucky(op, n, t, f) ==
  /\ f # "none" /\ n = bor
  /\ act' = [a |-> [op |-> op, n |-> n, t |-> t, f |-> f],
             o |-> [ok |-> TRUE] @@ Obs(next, bor)]
  /\ UNCHANGED <<open, next, bor, lb, ub, lostUb, lostSet, slack>>

BorrowExactly(n, f) ==
  /\ open
  /\ \/ BorrowOk("Borrow", n, 0, f)
     \/ BorrowFail("Borrow", n, 0, f)
     \/ BorrowLucky("Borrow", n, 0, f)

BorrowIfBelow(n, t, f) ==
  /\ open
  /\ IF bor <= t
     THEN \/ BorrowOk("BorrowIfBelow", n, t, f)
          \/ BorrowFail("BorrowIfBelow", n, t, f)
          \/ BorrowLucky("BorrowIfBelow", n, t, f)
     ELSE /\ act' = [a |-> [op |-> "BorrowIfBelow", n |-> n, t |-> t, f |-> f],
                     o |-> [ok |-> TRUE] @@ Obs(next, bor)]
          /\ UNCHANGED <<open, next, bor, lb, ub, lostUb, lostSet, slack>>

(* Move the next number forward by hand.  Nothing has to be stored yet.    *)
Dangerous(d) ==
  /\ open
  /\ next' = next + d
  /\ bor' = 0
  /\ ub' = Max(ub, next + d)
  /\ lostSet' = {}
  /\ slack' = TRUE
  /\ act' = [a |-> [op |-> "Dangerous", d |-> d],
             o |-> [ok |-> TRUE] @@ Obs(next', 0)]
  /\ UNCHANGED <<open, lb, lostUb>>

(* Close: unused reservations are given back.                              *)
CloseOk(f) ==
  /\ open
  \* storage need not be used if nothing changed
  /\ f = "none" \/ lostSet # {} \/ (bor = 0 /\ slack) \/ f \in Second
  /\ open' = FALSE
  /\ bor' = 0
  /\ IF lostSet # {}
     THEN \* nothing was recorded by this handle after loading/signing
          /\ lostSet' = lostSet \cup {0}
          /\ UNCHANGED <<lb, ub, lostUb, slack>>
     ELSE IF slack
     THEN UNCHANGED <<lb, ub, lostUb, lostSet, slack>>
     ELSE /\ lb' = lb /\ ub' = next
          /\ lostUb' = 0 /\ lostSet' = {0}
          /\ slack' = FALSE
  /\ act' = [a |-> [op |-> "Close", f |-> f], o |-> [ok |-> TRUE]]
  /\ UNCHANGED next

(* Storage fails: the handle remains open, and can be closed again.        *)
CloseFail(f) ==
  /\ open /\ f # "none"
  /\ bor' \in 0 .. bor
  /\ ub' = Max(ub, next)
  /\ lostSet' = {} /\ slack' = TRUE
  /\ act' = [a |-> [op |-> "Close", f |-> f],
             o |-> [ok |-> FALSE] @@ Obs(next, bor')]
  /\ UNCHANGED <<open, next, lb, lostUb>>

(* The process dies.                                                       *)
Crash ==
  /\ open
  /\ open' = FALSE /\ bor' = 0
  /\ act' = [a |-> [op |-> "Crash"], o |-> [ok |-> TRUE]]
  /\ UNCHANGED <<next, lb, ub, lostUb, lostSet, slack>>

(* Numbers that were skipped by the crash and not used by anyone.          *)
Skipped(s) == IF s > next THEN s - next ELSE 0

Load ==
  /\ ~open
  /\ \E s \in lb .. ub :
     \E l \in IF lostSet # {} THEN lostSet
              ELSE (IF slack THEN 0 ELSE Skipped(s)) .. lostUb :
       IF s > Cap
       THEN /\ act' = [a |-> [op |-> "Load"], o |-> [ok |-> FALSE]]
            /\ UNCHANGED <<open, next, bor, lb, ub, lostUb, lostSet, slack>>
       ELSE /\ open' = TRUE /\ next' = s /\ bor' = 0
            /\ lb' = s /\ ub' = s /\ lostUb' = l /\ lostSet' = {l}
            /\ slack' = FALSE
            /\ act' = [a |-> [op |-> "Load"],
                       o |-> [ok |-> TRUE, lost |-> l] @@ Obs(s, 0)]

(* The package-level Sign(path, msg): load, sign and close.                *)
SignHelper ==
  /\ ~open /\ Helper
  /\ \E s \in lb .. ub :
       IF s >= Cap
       THEN /\ act' = [a |-> [op |-> "SignHelper"], o |-> [ok |-> FALSE]]
            /\ UNCHANGED <<open, next, bor, lb, ub, lostUb, lostSet, slack>>
       ELSE /\ next' = s + 1 /\ lb' = s + 1 /\ ub' = s + 1
            /\ lostUb' = 0 /\ lostSet' = {0} /\ slack' = FALSE
            /\ act' = [a |-> [op |-> "SignHelper"], o |-> [ok |-> TRUE, seq |-> s]]
            /\ UNCHANGED <<open, bor>>

Next ==
  \/ \E f \in Faults :
       \/ SignOk(f) \/ SignFail(f) \/ SignExhausted(f)
       \/ CloseOk(f) \/ CloseFail(f)
       \/ \E n \in Amounts : BorrowExactly(n, f)
       \/ \E n \in Amounts : \E t \in Amounts : BorrowIfBelow(n, t, f)
  \/ SignBadReader
  \/ \E d \in Dangers : Dangerous(d)
  \/ Crash
  \/ Load
  \/ SignHelper

Spec == Init /\ [][Next]_vars

(* Bounds. *)
Bounded == next <= MaxNext /\ ub <= MaxNext + 2 /\ lostUb <= MaxLost

----------------------------------------------------------------------------
TypeOK ==
  /\ open \in BOOLEAN /\ next \in Nat /\ bor \in Nat
  /\ lb \in Nat /\ ub \in Nat /\ lostUb \in Nat
  /\ lb <= ub
  /\ lostSet \subseteq Nat /\ slack \in BOOLEAN

(* No number below lb was handed out twice: what is stored is beyond every *)
(* number used by a signature (next is only ahead of lb when moved by      *)
(* hand, in which case nothing was signed in between).                     *)
SignedIsStored ==
  [][ (act'.a.op = "Sign" /\ act'.o.ok) => (lb' > act'.o.seq) ]_vars
Monotone ==
  [][ (act'.a.op \in {"Sign"} /\ act'.o.ok) => (act'.o.seq >= lb /\ act'.o.seq < Cap) ]_vars
NoLossWithoutReservation ==
  [][ (act'.a.op = "Load" /\ act'.o.ok /\ lostUb = 0 /\ ~slack /\ lb = next)
        => (act'.o.next = next /\ act'.o.lost = 0) ]_vars

----------------------------------------------------------------------------
(* Output of the transition system. *)
St(o, n, b, l, u, lu, ls, s) ==
  [open |-> o, next |-> n, bor |-> b, lb |-> l, ub |-> u, lostUb |-> lu,
   lostSet |-> ls, slack |-> s]
Emit ==
  /\ PrintT(ToJson([s |-> St(open, next, bor, lb, ub, lostUb, lostSet, slack),
                 a |-> act'.a, o |-> act'.o,
                 t |-> St(open', next', bor', lb', ub', lostUb', lostSet', slack')]))
  /\ Bounded'  \* beyond the bounds, the exploration ends
=============================================================================
