-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* Who may open a key: several processes, each with several handles, open, *)
(* use and close it one operation at a time; processes are killed, and     *)
(* lock files of dead, unrelated or no process are found.  The real code   *)
(* is walked along this transition system by real processes (LockConc.tla  *)
(* is about operations which overlap, LockImpl.tla about how it is done.)  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Procs, Slots

VARIABLES
  held,    \* the open handle <<process, slot, kind>>, or None
  old,     \* closed handles which are still around
  lock,    \* what lies in the place of the lock file if no handle is open
  key,     \* is there a key?  "good", "spent", "bad" (unreadable) or "none"
  act

vars == <<held, old, lock, key, act>>
view == <<held, old, lock, key>>

None == <<>>
Free == held = None

Init ==
  /\ held = None /\ old = {} /\ lock = "free" /\ key = "good"
  /\ act = [a |-> [op |-> "Init"], o |-> [r |-> "ok"]]

Do(a, r) == act' = [a |-> a, o |-> [r |-> r]]

(* The outcomes of an attempt of process p to get the lock: "ok", "locked", *)
(* or "error" if it cannot be told.                                         *)
Lockable(p) ==
  IF ~Free THEN {"locked"}
  ELSE CASE lock \in {"free", "stale"} -> {"ok"}
         [] lock = "alive" -> {"locked"}
         [] lock \in {"pid1", "pid2"} ->    \* left by a process whose pid was reused
              IF lock = (IF p = 1 THEN "pid1" ELSE "pid2") THEN {"ok"} ELSE {"locked"}
         [] OTHER -> {"ok", "error", "locked"}   \* no lock file at all

(* How it ends once the lock is held.                                      *)
Possible(how) ==
  CASE how = "Load" -> IF key \in {"good", "spent"} THEN {"ok"} ELSE {"error"}
    [] how = "Ctr" -> IF key = "bad" THEN {"error"} ELSE {"ok"}
    [] how = "Derive" -> IF key = "bad" THEN {"error", "ok"} ELSE {"ok"}
    [] how = "DeriveBad" -> {"error"}      \* seeds of the wrong size
    [] how = "SignOnce" -> IF key = "good" THEN {"ok"} ELSE {"error"}

Kind(how) == IF how = "Ctr" THEN "ctr" ELSE "key"

Open(p, s, how) ==
  /\ \E l \in Lockable(p) \cup (IF how = "DeriveBad" THEN {"error"} ELSE {}) :
       IF l # "ok"
       THEN /\ Do([op |-> how, p |-> p, s |-> s], l)
            /\ UNCHANGED <<held, old, lock, key>>
       ELSE \E r \in Possible(how) :
              /\ Do([op |-> how, p |-> p, s |-> s], r)
              /\ lock' = "free"
              /\ IF r = "ok" /\ how # "SignOnce"
                 THEN /\ held' = <<p, s, Kind(how)>>
                      /\ old' = old \ {<<p, s>>}
                 ELSE UNCHANGED <<held, old>>
              /\ key' = IF r = "ok" /\ how = "Derive" THEN "good" ELSE key

Use(p, s) ==
  /\ held = <<p, s, "key">>
  /\ Do([op |-> "Use", p |-> p, s |-> s], IF key = "good" THEN "ok" ELSE "error")
  /\ UNCHANGED <<held, old, lock, key>>

Close(p, s) ==
  /\ ~Free /\ held[1] = p /\ held[2] = s
  /\ held' = None /\ old' = old \cup {<<p, s>>} /\ lock' = "free"
  /\ Do([op |-> "Close", p |-> p, s |-> s], "ok")
  /\ UNCHANGED key

(* A second Close or use of a handle is an error, and nothing more.        *)
Again(p, s, how) ==
  /\ <<p, s>> \in old
  /\ Do([op |-> how, p |-> p, s |-> s], "error")
  /\ UNCHANGED <<held, old, lock, key>>

Kill(p) ==
  /\ IF ~Free /\ held[1] = p
     THEN held' = None /\ lock' = "stale"
     ELSE UNCHANGED held /\ lock' = IF <<lock, p>> \in {<<"pid1", 1>>, <<"pid2", 2>>} THEN "stale" ELSE lock
  /\ old' = {h \in old : h[1] # p}
  /\ Do([op |-> "Kill", p |-> p], "ok")
  /\ UNCHANGED key

SetLock(k) ==
  /\ Free /\ k # lock
  /\ lock' = k
  /\ Do([op |-> "SetLock", kind |-> k], "ok")
  /\ UNCHANGED <<held, old, key>>

SetKey(k) ==
  /\ Free /\ k # key
  /\ key' = k
  /\ Do([op |-> "SetKey", kind |-> k], "ok")
  /\ UNCHANGED <<held, old, lock>>

Next ==
  \/ \E p \in Procs, s \in Slots, how \in {"Load", "Ctr", "Derive", "DeriveBad"} : Open(p, s, how)
  \/ \E p \in Procs : Open(p, 0, "SignOnce")
  \/ \E p \in Procs, s \in Slots : Use(p, s) \/ Close(p, s)
  \/ \E p \in Procs, s \in Slots, how \in {"CloseAgain", "UseAgain"} : Again(p, s, how)
  \/ \E p \in Procs : Kill(p)
  \/ \E k \in {"free", "stale", "alive", "pid1", "pid2", "junk", "dir"} : SetLock(k)
  \/ \E k \in {"good", "spent", "bad", "none"} : SetKey(k)
Spec == Init /\ [][Next]_vars

TypeOK == (~Free => lock = "free") /\ (Free \/ <<held[1], held[2]>> \notin old)
(* The handle which is open is the only one that works, and nothing but its *)
(* own Close and the death of its process ends that.                        *)
Exclusive == [][~Free => \/ held' = held
                         \/ held' = None /\ act'.a.op \in {"Close", "Kill"} /\ act'.a.p = held[1]]_vars
(* A key which is not open and was not left locked by a living process can  *)
(* be opened.                                                               *)
Available == (Free /\ key = "good" /\ lock \in {"free", "stale"}) =>
             \A p \in Procs : Lockable(p) = {"ok"} /\ Possible("Load") = {"ok"}
Emit == PrintT(ToJson([s |-> view, a |-> act'.a, o |-> act'.o, t |-> view']))
=============================================================================
