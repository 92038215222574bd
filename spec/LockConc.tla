------------------------------ MODULE LockConc ------------------------------
(***************************************************************************)
(* What several processes with several goroutines see which open, use and  *)
(* close one key at the same time, and are killed.  Histories of the real  *)
(* code, scheduled system call by system call, are accepted if there is a  *)
(* behaviour of this specification with these visible steps.  Clients have *)
(* one operation going on at a time, and at most one handle each.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile, Diagnose

Traces == ndJsonDeserialize(TraceFile)

VARIABLES
  tr, i,    \* the history, and the next step in it
  holder,   \* client which has the key open, 0 if none
  next,     \* first number not used up
  ops,      \* operations which are going on: client -> record
  leaky     \* processes which might have left a lock behind as they could not remove it

vars == <<tr, i, holder, next, ops, leaky>>

Tr == Traces[tr].ev
E == Tr[i]
Active == DOMAIN ops
Opens == {"Load", "Ctr", "SignOnce"}
Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
With(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]

Init ==
  /\ tr \in 1..Len(Traces) /\ i = 1
  /\ holder = 0 /\ next = 0 /\ ops = <<>> /\ leaky = {}

Advance == i' = i + 1 /\ UNCHANGED tr
Hidden(c) == UNCHANGED <<tr, i>>

(* Is somebody else in the way, or might seem to be? *)
Busy(c) == \/ holder \notin {0, c}
           \/ \E u \in Active \ {c} : ops[u].op \in Opens \cup {"Close"}
           \/ leaky # {}

Inv ==
  /\ E.e = "inv" /\ E.c \notin Active
  /\ E.op \in {"Use", "Close"} => holder = E.c
  /\ LET mine == [op |-> E.op, p |-> E.p, seq |-> E.seq, st |-> "called", seen |-> Busy(E.c),
                  fault |-> \E u \in Active : ops[u].fault]
         told == IF E.op \in Opens \cup {"Close"} THEN [u \in Active |-> [ops[u] EXCEPT !.seen = TRUE]] ELSE ops
     IN ops' = With(told, E.c, mine)
  /\ UNCHANGED <<holder, next, leaky>> /\ Advance

(* A system call is made to fail *)
Fault ==
  /\ E.e = "fault"
  /\ ops' = [u \in Active |-> [ops[u] EXCEPT !.fault = TRUE]]
  /\ leaky' = IF E.leak THEN leaky \cup {E.p} ELSE leaky
  /\ UNCHANGED <<holder, next>> /\ Advance

Acquire(c) ==
  /\ ops[c].op \in Opens /\ ops[c].st = "called" /\ holder = 0
  /\ holder' = c
  /\ ops' = [ops EXCEPT ![c].st = "open"]
  /\ UNCHANGED <<next, leaky>> /\ Hidden(c)

(* An attempt which got the lock may still fail, due to a fault *)
Abandon(c) ==
  /\ ops[c].op \in Opens /\ ops[c].st = "open" /\ ops[c].fault
  /\ holder' = 0
  /\ ops' = [ops EXCEPT ![c].st = "failed"]
  /\ UNCHANGED <<next, leaky>> /\ Hidden(c)

SignOnce(c) ==
  /\ ops[c].op = "SignOnce" /\ ops[c].st = "open"
  /\ ops[c].seq >= next
  /\ next' = ops[c].seq + 1
  /\ ops' = [ops EXCEPT ![c].st = "signed"]
  /\ UNCHANGED <<holder, leaky>> /\ Hidden(c)

Release(c) ==
  /\ holder = c
  /\ \/ ops[c].op = "SignOnce" /\ ops[c].st = "signed"
     \/ ops[c].op = "Close" /\ ops[c].st = "called"
  /\ holder' = 0
  /\ ops' = [ops EXCEPT ![c].st = "done"]
  /\ UNCHANGED <<next, leaky>> /\ Hidden(c)

Outcome(c, o) ==
  CASE o.op \in {"Load", "Ctr"} ->
         \/ E.r = "ok" /\ o.st = "open"
         \/ E.r = "locked" /\ ((o.st = "called" /\ o.seen) \/ (o.fault /\ o.st = "failed"))
         \/ E.r = "error" /\ o.fault /\ o.st \in {"called", "failed"}
    [] o.op = "SignOnce" ->
         \/ E.r = "ok" /\ o.st = "done"
         \/ E.r = "locked" /\ ((o.st = "called" /\ o.seen) \/ (o.fault /\ o.st = "failed"))
         \/ E.r = "error" /\ o.fault /\ o.st \in {"called", "failed", "done"}
    [] o.op = "Use" -> E.r = "ok" /\ E.seq >= next
    [] o.op = "Close" -> (E.r = "ok" /\ o.st = "done") \/ (E.r = "error" /\ o.fault)
    [] o.op = "Again" -> E.r = "error"

Res ==
  /\ E.e = "res" /\ E.c \in Active
  /\ Outcome(E.c, ops[E.c])
  /\ next' = IF ops[E.c].op = "Use" THEN E.seq + 1 ELSE next
  /\ ops' = Without(ops, E.c)
  /\ UNCHANGED <<holder, leaky>> /\ Advance

(* The death of a process ends all it was doing, anywhere. *)
Kill ==
  /\ E.e = "kill"
  /\ LET dead == {c \in Active : ops[c].p = E.p}
     IN /\ ops' = [c \in Active \ dead |-> [ops[c] EXCEPT !.seen = TRUE]]
        /\ holder' = IF holder \in {E.clients[k] : k \in DOMAIN E.clients} THEN 0 ELSE holder
  /\ leaky' = leaky \ {E.p}
  /\ UNCHANGED next /\ Advance

Done == i = Len(Tr) + 1
Next ==
  /\ ~Done
  /\ \/ Inv \/ Res \/ Kill \/ Fault
     \/ \E c \in Active : Acquire(c) \/ Abandon(c) \/ SignOnce(c) \/ Release(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Report ==
  /\ Done => PrintT(<<"accepted", tr>>)
  /\ Diagnose => PrintT(ToJson([at |-> i, holder |-> holder, next |-> next, ops |-> [c \in Active |-> <<c, ops[c]>>], leaky |-> leaky]))
(* Two which both have it open, never *)
AtMostOne == \A c, u \in Active : ops[c].st = "open" /\ ops[u].st = "open" => c = u
=============================================================================
