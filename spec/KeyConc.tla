------------------------------ MODULE KeyConc ------------------------------
(***************************************************************************)
(* What concurrent users of one private key, and its container, may see.   *)
(*                                                                         *)
(* Histories of the real code (invocations and responses of the users,     *)
(* begin and end of the operations of the container) recorded under a      *)
(* controlled scheduler are read from a file; a history is accepted if     *)
(* there is a behaviour of this specification with these visible steps.    *)
(* The hidden steps are the moments at which an operation takes effect.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile, Diagnose,
  Enforce    \* the properties whose rules are enforced; the others' are not

On(ps) == ps \cap Enforce # {}

Traces == ndJsonDeserialize(TraceFile)

VARIABLES
  tr, i,     \* the history, and the next step in it
  next,      \* first number not handed out
  bor,       \* reserved numbers
  ops,       \* operations which are going on: thread -> record
  busy,      \* thread which is in the container, -1 if none
  closing,   \* "open", "closing" (a Close has been called), "closed" (it took effect)
  excused,   \* subtrees the container failed to drop
  ahead,     \* the last update of the stored number failed, but might have been done
  pre,       \* the next number when precomputation was enabled, -1 if it was not
  missed     \* the next number when the container last failed to hand out a subtree, or -1

vars == <<tr, i, next, bor, ops, busy, closing, excused, ahead, pre, missed>>

Tr == Traces[tr].ev
Cfg == Traces[tr].cfg
E == Tr[i]
Active == DOMAIN ops
\* Numbers are relative to one which is a parameter of the history, and a
\* subtree comes with the numbers under it, those from first and below end.

Init ==
  /\ tr \in 1..Len(Traces) /\ i = 1
  /\ next = Traces[tr].cfg.s0
  /\ bor = 0
  /\ ops = <<>>
  /\ busy = -1
  /\ closing = "open"
  /\ excused = {}
  /\ ahead = FALSE
  /\ pre = -1 /\ missed = -1

InFlight == {t \in Active : ops[t].st = "taken"}

(* Unused reservations of the handle and failures can't hide that. *)
Min(a, b) == IF a < b THEN a ELSE b
Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
With(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]

----------------------------------------------------------------------------
(* Hidden steps *)

Stutter == UNCHANGED <<tr, i, busy, excused, ahead, missed>>

(* A number is handed out. *)
Take(t) ==
  /\ ops[t].op \in {"Sign", "SignBad"} /\ ops[t].st = "called"
  /\ On({"C10"}) => closing # "closed"
  /\ On({"C01"}) => next < Cfg.cap
  /\ On({"C01"}) /\ ops[t].res >= 0 => ops[t].res = next
  /\ LET n == IF ops[t].res >= 0 THEN ops[t].res ELSE next IN
       /\ ops' = [ops EXCEPT ![t].st = "taken", ![t].n = n]
       /\ next' = IF n < next THEN next ELSE n + 1
  /\ bor' = IF bor > 0 THEN bor - 1 ELSE 0
  /\ UNCHANGED <<closing, pre>> /\ Stutter

(* It is retired. *)
Finish(t) ==
  /\ ops[t].st = "taken"
  /\ ops' = [ops EXCEPT ![t].st = "fin"]
  /\ UNCHANGED <<next, bor, closing, pre>> /\ Stutter

Lin(t, v) == ops' = [ops EXCEPT ![t].st = "fin", ![t].n = v]

Reserve(t) ==
  /\ ops[t].op \in {"Borrow", "BorrowIfBelow"} /\ ops[t].st = "called"
  /\ IF ops[t].op = "BorrowIfBelow" /\ bor > ops[t].arg2
     THEN ops[t].succ /\ UNCHANGED bor
     ELSE IF ops[t].succ THEN bor' = ops[t].arg
          ELSE \* What was reserved might have been given back
               bor' \in {bor, 0}
  /\ Lin(t, 0)
  /\ UNCHANGED <<next, closing, pre>> /\ Stutter

Query(t) ==
  /\ ops[t].op \in {"Unretired", "SeqNo", "Borrowed", "Cached", "Pre"} /\ ops[t].st = "called"
  /\ Lin(t, CASE ops[t].op = "Unretired" -> Cardinality(InFlight)
              [] ops[t].op = "SeqNo" -> next
              [] ops[t].op = "Borrowed" -> bor
              [] OTHER -> -1)
  /\ pre' = IF ops[t].op = "Pre" /\ pre = -1 THEN next ELSE pre
  /\ UNCHANGED <<next, bor, closing>> /\ Stutter

Shut(t) ==
  /\ ops[t].op = "Close" /\ ops[t].st = "called"
  /\ IF ops[t].succ
     THEN /\ On({"C10"}) => closing # "closed" /\ InFlight = {}
          /\ closing' = "closed" /\ bor' = 0
     ELSE closing' \in {closing, IF closing = "closed" THEN "closed" ELSE "open"} /\ bor' \in {bor, 0}
  /\ Lin(t, 0)
  /\ UNCHANGED <<next, pre>> /\ Stutter

Hidden == \E t \in Active : Take(t) \/ Finish(t) \/ Reserve(t) \/ Query(t) \/ Shut(t)

----------------------------------------------------------------------------
(* Visible steps *)
Advance == i' = i + 1 /\ UNCHANGED tr

Call ==
  /\ E.e = "call"
  /\ E.t \notin Active
  /\ ops' = With([t \in Active |-> IF E.op = "Close" THEN [ops[t] EXCEPT !.shut = TRUE] ELSE ops[t]],
                 E.t,
                 [op |-> E.op, st |-> "called", n |-> -1, res |-> E.res, succ |-> E.succ,
                  arg |-> E.n, arg2 |-> E.th, fault |-> FALSE,
                  shut |-> closing # "open" \/ \E t \in Active : ops[t].op = "Close",
                  touched |-> FALSE])
  /\ closing' = IF E.op = "Close" /\ closing = "open" THEN "closing" ELSE closing
  /\ UNCHANGED <<next, bor, busy, excused, ahead, pre, missed>> /\ Advance

(* Why an operation may fail *)
Excuse(o) == \/ o.fault                                        \* the container failed meanwhile
             \/ o.shut                                         \* (being) closed
             \/ o.op \in {"Sign", "SignBad"} /\ next >= Cfg.cap \* exhausted
             \/ o.op = "SignBad" /\ o.st = "fin"               \* the source failed

Return ==
  /\ E.e = "ret" /\ E.t \in Active
  /\ LET o == ops[E.t] IN
       /\ IF E.ok
          THEN /\ o.st = "fin"
               /\ On({"C01"}) /\ o.op = "Sign" => o.n = E.val /\ E.disk > E.val
               /\ On({"C10"}) => o.op # "SignBad"
               /\ On({"C09"}) /\ o.op = "Unretired" => o.n = E.val
               /\ On({"C01"}) /\ o.op \in {"SeqNo", "Borrowed"} => o.n = E.val
               /\ On({"C01"}) /\ o.op = "Close" => E.disk = next \/ (ahead /\ E.disk > next)
               \* A closed container is only told so
               /\ On({"C10", "C19"}) /\ o.touched => o.op \in {"Unretired", "SeqNo", "Borrowed", "Cached"}
          ELSE /\ On({"C10"}) => Excuse(o)
               /\ o.op \in {"Sign", "SignBad", "Borrow", "BorrowIfBelow", "Close"}
               /\ o.st = "fin" \/ (o.op \in {"Sign", "SignBad"} /\ o.st = "called")
  /\ ops' = Without(ops, E.t)
  /\ UNCHANGED <<next, bor, busy, closing, excused, ahead, pre, missed>> /\ Advance

(* A number under the subtree is or can be in use *)
Needed(c) ==
  \/ next < c.end
  \/ \E u \in InFlight : ops[u].n >= c.first /\ ops[u].n < c.end

CtrBegin ==
  /\ E.e = "cb"
  /\ On({"C19"}) => busy = -1
  /\ busy' = E.t
  /\ On({"C10", "C19"}) /\ closing = "closed" => E.t \in Active
  /\ On({"C09"}) /\ E.op = "DropSubTree" => ~Needed(E)
  \* There are no signatures below other subtrees (the last number is never used)
  /\ On({"C24"}) /\ E.op = "GetSubTree" => E.first < Cfg.cap
  /\ ops' = IF closing = "closed" /\ E.t \in Active /\ ops[E.t].st # "fin" THEN [ops EXCEPT ![E.t].touched = TRUE] ELSE ops
  /\ UNCHANGED <<next, bor, closing, excused, ahead, pre, missed>> /\ Advance

CtrEnd ==
  /\ E.e = "ce"
  /\ On({"C19"}) => busy = E.t
  /\ busy' = -1
  /\ IF E.ok THEN UNCHANGED <<ops, excused>>
     ELSE /\ ops' = [t \in Active |-> [ops[t] EXCEPT !.fault = TRUE]]
          /\ excused' = IF E.op = "DropSubTree" THEN excused \cup {<<E.l, E.tree>>} ELSE excused
  /\ ahead' = IF E.op \in {"SetSeqNo", "BorrowSeqNos"} THEN ~E.ok ELSE ahead
  /\ missed' = IF E.op = "GetSubTree" /\ ~E.ok THEN next ELSE missed
  /\ UNCHANGED <<next, bor, closing, pre>> /\ Advance

(* The bottom subtree a number is in: their count from that of the base *)
Bottom(n) == (n + Cfg.off) \div Cfg.size
Present(b) == \E k \in DOMAIN E.cached : E.cached[k].l = 0 /\ E.cached[k].first = b * Cfg.size - Cfg.off

(* With precomputation, the subtree after the current one is there (if     *)
(* there is one), and so is the current one, which was the next one before.*)
(* A failing container might have kept it from being made, until the next  *)
(* one is due.                                                             *)
StaysAhead ==
  /\ (closing = "open" /\ pre # -1 /\ next < Cfg.cap) =>
       LET b == Bottom(next)
           due(x) == missed = -1 \/ x > Bottom(missed) + 1 IN
         /\ ((b + 1) * Cfg.size - Cfg.off < Cfg.cap /\ due(b + 1)) => Present(b + 1)
         /\ (Bottom(pre) < b /\ due(b)) => Present(b)
  \* What is counted is what is there
  /\ (closing = "open" /\ missed = -1 /\ excused = {}) => E.count = Len(E.cached)

(* Nothing is going on anymore, not even in the background *)
Quiet ==
  /\ E.e = "quiet"
  /\ Active = {} /\ (On({"C19"}) => busy = -1)
  \* Every subtree below which this handle finished the last number is gone
  /\ On({"C09"}) => \A k \in DOMAIN E.cached :
        LET c == E.cached[k] IN
          \/ c.end > next
          \/ c.end <= Cfg.s0
          \/ <<c.l, c.tree>> \in excused
  \* Storage never falls behind what was handed out
  /\ On({"C01"}) => E.disk >= next
  /\ On({"C24"}) => StaysAhead
  /\ UNCHANGED <<next, bor, ops, busy, closing, excused, ahead, pre, missed>> /\ Advance

Done == i = Len(Tr) + 1

Visible == ~Done /\ (Call \/ Return \/ CtrBegin \/ CtrEnd \/ Quiet)
Next == ~Done /\ (Hidden \/ Visible)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Reports which histories are accepted, and how far the others go *)
Report ==
  /\ Done => PrintT(<<"accepted", tr>>)
  /\ Diagnose => PrintT(ToJson([at |-> i, next |-> next, bor |-> bor, ops |-> [t \in Active |-> <<t, ops[t]>>], busy |-> busy, closing |-> closing]))

(* The specification itself keeps its promises *)
Unique == On({"C01"}) => \A t, u \in Active : ops[t].st = "taken" /\ ops[u].st = "taken" /\ t # u => ops[t].n # ops[u].n
=============================================================================
