------------------------------ MODULE LockImpl ------------------------------
(***************************************************************************)
(* How keys are locked, system call by system call: the pid file of        *)
(* nightlyone/lockfile, the table of the paths opened by the process, and  *)
(* the lock on the directory (Guard) held while the pid file is taken over *)
(* or removed.  Processes with several goroutines open and close one key   *)
(* and are killed; at first, there is the pid file of a dead process.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS
  Procs,     \* processes
  Threads,   \* goroutines of each
  Guard,     \* is the directory locked meanwhile?
  Table,     \* is there a table of the opened paths?
  Early,     \* is the entry in the table removed before the pid file?
  Ignore,    \* are unexpected errors of TryLock ignored?
  Faults,    \* may system calls fail?
  MaxKills

T == Procs \X Threads

VARIABLES
  file,    \* the pid file: 0 if absent, otherwise its inode
  owner,   \* inode -> process whose pid it contains (0: a dead one)
  tab,     \* processes which have the path in their table
  dir,     \* who locked the directory: <<p, t>> or <<>>
  pc, saw, \* of each thread: where it is; the owner it read
  kills, ino,
  leaky    \* processes which failed to remove their pid file

vars == <<file, owner, tab, dir, pc, saw, kills, ino, leaky>>

Dead == 0
Init ==
  /\ file = 1 /\ owner = (1 :> Dead) /\ ino = 1
  /\ tab = {} /\ dir = <<>>
  /\ pc = [t \in T |-> "idle"] /\ saw = [t \in T |-> Dead]
  /\ kills = 0 /\ leaky = {}

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
At(t, l) == pc[t] = l

Begin(t) ==
  /\ At(t, "idle")
  /\ IF Table /\ t[1] \in tab
     THEN UNCHANGED <<tab, pc>>          \* fails: it is locked
     ELSE /\ tab' = IF Table THEN tab \cup {t[1]} ELSE tab
          /\ Goto(t, IF Guard THEN "flock" ELSE "link")
  /\ UNCHANGED <<file, owner, dir, saw, kills, ino>>

Flock(t, at, then) ==
  /\ At(t, at) /\ dir = <<>>
  /\ dir' = t /\ Goto(t, then)
  /\ UNCHANGED <<file, owner, tab, saw, kills, ino>>

Undir(t) == IF dir = t THEN <<>> ELSE dir

(* link the file with our pid in place, and see whether it's ours *)
Link(t) ==
  /\ At(t, "link")
  /\ IF file = 0
     THEN /\ ino' = ino + 1 /\ file' = ino' /\ owner' = (ino' :> t[1]) @@ owner
          /\ Goto(t, "open") /\ dir' = Undir(t)
     ELSE /\ Goto(t, "read") /\ UNCHANGED <<file, owner, ino, dir>>
  /\ UNCHANGED <<tab, saw, kills>>

Fail(t) ==
  /\ tab' = tab \ {t[1]} /\ dir' = Undir(t)

Read(t) ==
  /\ At(t, "read")
  /\ IF file = 0
     THEN /\ UNCHANGED saw               \* (it vanished)
          /\ IF Ignore THEN Goto(t, "open") /\ dir' = Undir(t) /\ UNCHANGED tab ELSE Goto(t, "idle") /\ Fail(t)
     ELSE IF owner[file] \notin {Dead, t[1]}
          THEN Goto(t, "idle") /\ Fail(t) /\ UNCHANGED saw
          ELSE Goto(t, "unlink") /\ saw' = [saw EXCEPT ![t] = owner[file]] /\ UNCHANGED <<tab, dir>>
  /\ UNCHANGED <<file, owner, kills, ino>>

Unlink(t) ==
  /\ At(t, "unlink")
  /\ file' = 0 /\ Goto(t, "link")
  /\ UNCHANGED <<owner, tab, dir, saw, kills, ino>>

Close(t) ==
  /\ At(t, "open")
  /\ Goto(t, IF Guard THEN "cflock" ELSE "cread")
  /\ tab' = IF Early THEN tab \ {t[1]} ELSE tab
  /\ UNCHANGED <<file, owner, dir, saw, kills, ino>>

CRead(t) ==
  /\ At(t, "cread")
  /\ IF file # 0 /\ owner[file] = t[1] THEN Goto(t, "cunlink") /\ UNCHANGED <<tab, dir>>
     ELSE Goto(t, "idle") /\ Fail(t)
  /\ UNCHANGED <<file, owner, saw, kills, ino>>

CUnlink(t) ==
  /\ At(t, "cunlink")
  /\ file' = 0 /\ Goto(t, "idle") /\ dir' = Undir(t)
  /\ tab' = IF Early THEN tab ELSE tab \ {t[1]}
  /\ UNCHANGED <<owner, saw, kills, ino>>

Kill(p) ==
  /\ kills < MaxKills /\ kills' = kills + 1
  /\ \E t \in T : t[1] = p /\ pc[t] # "idle"
  /\ pc' = [t \in T |-> IF t[1] = p THEN "idle" ELSE pc[t]]
  /\ owner' = [i \in DOMAIN owner |-> IF owner[i] = p THEN Dead ELSE owner[i]]
  /\ tab' = tab \ {p}
  /\ dir' = IF dir # <<>> /\ dir[1] = p THEN <<>> ELSE dir
  /\ leaky' = leaky \ {p}
  /\ UNCHANGED <<file, saw, ino>>

(* A system call fails while opening: link or lstat, read, unlink *)
FaultOpen(t) ==
  /\ Faults /\ pc[t] \in {"flock", "link", "read", "unlink"}
  /\ IF Ignore THEN Goto(t, "open") /\ dir' = Undir(t) /\ UNCHANGED tab
     ELSE Goto(t, "idle") /\ Fail(t)
  /\ UNCHANGED <<file, owner, saw, kills, ino, leaky>>
(* ... while closing *)
FaultClose(t) ==
  /\ Faults
  /\ \/ At(t, "cflock") /\ Goto(t, "cread") /\ UNCHANGED <<tab, dir, leaky>>   \* done without
     \/ /\ pc[t] \in {"cread", "cunlink"} /\ Goto(t, "idle")
        /\ tab' = tab \ {t[1]} /\ dir' = Undir(t) /\ leaky' = leaky \cup {t[1]}
  /\ UNCHANGED <<file, owner, saw, kills, ino>>

Proper(t) ==
  \/ Begin(t) \/ Flock(t, "flock", "link") \/ Link(t) \/ Read(t) \/ Unlink(t)
  \/ Close(t) \/ Flock(t, "cflock", "cread") \/ CRead(t) \/ CUnlink(t)
Step(t) == (Proper(t) /\ UNCHANGED leaky) \/ FaultOpen(t) \/ FaultClose(t)
Next == \/ \E t \in T : Step(t)
        \/ \E p \in Procs : Kill(p)
Fairness == \A t \in T : WF_vars(Proper(t) /\ UNCHANGED leaky /\ ~At(t, "idle") /\ ~At(t, "open"))
Spec == Init /\ [][Next]_vars /\ Fairness
Bound == ino < 5

Open == {t \in T : pc[t] \in {"open", "cflock", "cread", "cunlink"}}
AtMostOne == Cardinality(Open) <= 1
(* The pid file of an open key is its own. *)
Mine == \A t \in Open : pc[t] = "open" => file # 0 /\ owner[file] = t[1]
(* If nobody does anything, the key can be opened: what's left is no lock  *)
(* of a living process.                                                    *)
Quiet == \A t \in T : At(t, "idle")
Available == Quiet => dir = <<>> /\ tab = {} /\ (file = 0 \/ owner[file] \in leaky \cup {Dead})
(* Opening and closing end. *)
Ends == \A t \in T : (pc[t] = "link") ~> (pc[t] \in {"open", "idle"})

(* It implements the lock of Lock.tla: *)
Abs == IF Open = {} THEN <<>> ELSE CHOOSE t \in Open : TRUE
Refines == [][Abs # <<>> => \/ Abs' = Abs
                            \/ Abs' = <<>> /\ pc'[Abs] = "idle"]_vars
=============================================================================
