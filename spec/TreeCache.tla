----------------------------- MODULE TreeCache -----------------------------
(***************************************************************************)
(* The algorithm by which the goroutines that use one private key share    *)
(* its cached subtrees: getSubTree, getSeqNo, retireSeqNo, the background  *)
(* workers of EnableSubTreePrecomputation, and Close, lock by lock.        *)
(*                                                                         *)
(* What happens while sk.mux is held is one step; what happens without it  *)
(* (filling the buffer of a subtree, reading it to make a signature) takes *)
(* time and is at least two.                                               *)
(*                                                                         *)
(* The constant Bugs disables parts of the algorithm to see that the       *)
(* properties below depend on them.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  D, Th,       \* layers and height of the subtrees
  Start, Stop, \* first number, and the one at which the signers stop
  NSigners,
  Pre,         \* number of calls to EnableSubTreePrecomputation
  MaxFaults,   \* operations of the container that may fail
  BadReads,    \* sources of messages that may fail
  Closes,      \* is the key closed at the end (at any moment)?
  InitCache,   \* "empty", "good", "corrupt", "any": contents of the cache at the start
  Bugs

Pow2(k) == 2^k
Cap == Pow2(D * Th) - 1
Trees == {<<l, t>> : l \in 0 .. D - 1, t \in 0 .. Pow2(D * Th)}
IsRoot(s) == s[1] = D - 1
Up(s, l) == <<l, s[2] \div Pow2(Th * (l - s[1]))>>
Path(n, l) == <<l, n \div Pow2(Th * (l + 1))>>
End(s) == (s[2] + 1) * Pow2(Th * (s[1] + 1))

VARIABLES
  ready, checked, \* the maps of PrivateKey
  cache,          \* the container: subtree -> "junk" or "good"
  seq, least, retired,
  bg,             \* background workers started so far
  th,             \* thread -> [st |-> frames, pc, n, have]
  closing, closed,
  faults, bad,    \* failures still to come
  pres,           \* calls to EnableSubTreePrecomputation still to come
  on,             \* is precomputation on?
  excused         \* subtrees the container failed to drop

vars == <<ready, checked, cache, seq, least, retired, bg, th, closing, closed, faults, bad, pres, on, excused>>

Threads == DOMAIN th
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Signers == {<<"s", k>> : k \in 1 .. NSigners}
\* Stored contents of the cache when the key was loaded
InitTrees == {Path(Start, l) : l \in 0 .. D - 1} \cup (IF Start > 0 THEN {Path(Start - 1, 0)} ELSE {})
Inits ==
  CASE InitCache = "empty" -> {<<>>}
    [] InitCache = "good" -> {[s \in InitTrees |-> "good"]}
    [] InitCache = "corrupt" -> {[s \in InitTrees |-> "junk"]}
    [] OTHER -> UNION {[S -> {"junk", "good"}] : S \in SUBSET InitTrees}

Frame(s) == [s |-> s, pc |-> "enter", k |-> 0, par |-> FALSE]
Idle == [st |-> <<>>, pc |-> "idle", n |-> 0, have |-> {}, res |-> TRUE, bgs |-> <<0, 0>>]

\* The root is fetched before the key can be used (newPrivateKey).
Init ==
  /\ \E c \in Inits :
       LET r == <<D - 1, 0>> IN
       /\ cache = With(c, r, "good")
       /\ ready = [s \in (IF "forget" \in Bugs THEN {r} ELSE DOMAIN c \cup {r}) |-> TRUE]
       /\ checked = [s \in DOMAIN ready |-> s = r]
  /\ seq = Start /\ least = Start /\ retired = {}
  /\ bg = 0
  /\ th = [t \in Signers |-> Idle]
  /\ closing = FALSE /\ closed = FALSE
  /\ faults = MaxFaults /\ bad = BadReads /\ pres = Pre /\ on = FALSE
  /\ excused = {}

Top(t) == th[t].st[Len(th[t].st)]
Running(t) == th[t].st # <<>>
Pop(t) == SubSeq(th[t].st, 1, Len(th[t].st) - 1)
SetTop(t, f) == [th EXCEPT ![t].st = Append(Pop(t), f)]
\* The sub tree has been fetched, or that failed
Ret(T, t, ok) == [T EXCEPT ![t].st = SubSeq(T[t].st, 1, Len(T[t].st) - 1), ![t].res = ok,
                          ![t].have = IF ok /\ Len(T[t].st) = 1 /\ T[t].pc = "sign" THEN @ \cup {T[t].st[1].s} ELSE @]
\* sk.cond.Broadcast()
Wake(T) == IF "nobroadcast" \in Bugs THEN T
           ELSE [t \in DOMAIN T |-> IF T[t].st # <<>> /\ T[t].st[Len(T[t].st)].pc = "waiting"
                                    THEN [T[t] EXCEPT !.st[Len(T[t].st)].pc = "enter"] ELSE T[t]]
Has(f, s) == s \in DOMAIN f
True(f, s) == Has(f, s) /\ f[s]

----------------------------------------------------------------------------
(* getSubTree *)

\* The first critical section
Enter(t) ==
  LET f == Top(t) s == f.s IN
  /\ f.pc = "enter"
  /\ \/ \* the container fails
        /\ faults > 0 /\ faults' = faults - 1
        /\ \/ UNCHANGED cache
           \/ ~Has(cache, s) /\ cache' = With(cache, s, "junk")
        /\ th' = Ret(th, t, FALSE)
        /\ UNCHANGED <<ready, checked>>
     \/ /\ cache' = IF Has(cache, s) THEN cache ELSE With(cache, s, "junk")
        /\ IF Has(ready, s)
           THEN /\ Assert(Has(cache, s), "This should not be possible")
                /\ IF ready[s]
                   THEN IF checked[s] \/ "nocheck" \in Bugs
                        THEN th' = Ret(th, t, TRUE) /\ UNCHANGED <<ready, checked>>
                        ELSE IF cache'[s] = "good" /\ "regen" \notin Bugs
                             THEN th' = Ret(th, t, TRUE) /\ checked' = [checked EXCEPT ![s] = TRUE] /\ UNCHANGED ready
                             ELSE /\ ready' = [ready EXCEPT ![s] = FALSE]
                                  /\ th' = SetTop(t, [f EXCEPT !.pc = "fill", !.par = FALSE])
                                  /\ UNCHANGED checked
                   ELSE IF "nowait" \in Bugs THEN th' = Ret(th, t, TRUE) /\ UNCHANGED <<ready, checked>>
                   ELSE th' = SetTop(t, [f EXCEPT !.pc = "waiting"]) /\ UNCHANGED <<ready, checked>>
           ELSE /\ ready' = With(ready, s, FALSE)
                /\ checked' = With(checked, s, TRUE)
                /\ th' = SetTop(t, [f EXCEPT !.pc = "fill",
                                             !.par = ~IsRoot(s) /\ True(ready, Up(s, s[1] + 1)) /\ True(checked, Up(s, s[1] + 1))])
        /\ UNCHANGED faults
  /\ UNCHANGED <<seq, least, retired, bg, closing, closed, bad, pres, on, excused>>

Same == UNCHANGED <<seq, least, retired, bg, closing, closed, faults, bad, pres, on, excused>>

\* genSubTreeInto: begins to write ...
Fill(t) ==
  LET f == Top(t) IN
  /\ f.pc = "fill"
  /\ cache' = IF Has(cache, f.s) THEN [cache EXCEPT ![f.s] = "junk"] ELSE cache
  /\ th' = SetTop(t, [f EXCEPT !.pc = IF IsRoot(f.s) THEN "succeed" ELSE "ancestors", !.k = IF f.par THEN f.s[1] + 1 ELSE D - 1])
  /\ UNCHANGED <<ready, checked>> /\ Same

\* ... fetches the ancestors, from the root down, unless the parent is there,
\* and the parent anyway ...
Ancestor(t) ==
  LET f == Top(t) IN
  /\ f.pc = "ancestors"
  /\ th' = [th EXCEPT ![t].st = Append(Append(Pop(t), [f EXCEPT !.pc = "fetched"]), Frame(Up(f.s, f.k)))]
  /\ UNCHANGED <<ready, checked, cache>> /\ Same

Fetched(t) ==
  LET f == Top(t) IN
  /\ f.pc = "fetched"
  /\ IF th[t].res
     THEN \* (f.par: this was the parent)
          /\ th' = SetTop(t, IF f.par THEN [f EXCEPT !.pc = "succeed"]
                             ELSE IF f.k = f.s[1] + 1 THEN [f EXCEPT !.pc = "ancestors", !.par = TRUE]
                             ELSE [f EXCEPT !.pc = "ancestors", !.k = f.k - 1])
          /\ UNCHANGED <<ready, checked>>
     ELSE \* abort
          /\ ready' = Without(ready, f.s) /\ checked' = Without(checked, f.s)
          /\ th' = Ret(Wake(th), t, FALSE)
  /\ UNCHANGED cache /\ Same

\* ... and signs the root.
Succeed(t) ==
  LET f == Top(t) IN
  /\ f.pc = "succeed"
  /\ cache' = IF Has(cache, f.s) THEN [cache EXCEPT ![f.s] = "good"] ELSE cache
  /\ ready' = With(ready, f.s, TRUE) /\ checked' = With(checked, f.s, TRUE)
  /\ th' = Ret(Wake(th), t, TRUE)
  /\ Same

----------------------------------------------------------------------------
(* Retirement.  The sub trees of the set S are dropped, unless they are    *)
(* being filled; for failed of them the container reports a failure, but   *)
(* those of done it has dropped nevertheless (which the key looks up).     *)
Drop(S) ==
  LET idle == {s \in S : "dropbusy" \in Bugs \/ ~(Has(ready, s) /\ ~ready[s])} IN
  \E failed \in SUBSET idle : \E done \in SUBSET failed :
    LET go == (idle \ failed) \cup done
        forget == IF "keepgone" \in Bugs THEN idle \ failed ELSE {s \in idle : s \notin failed \/ s \in done \/ ~Has(cache, s)}
    IN
    /\ Cardinality(failed) <= faults
    /\ cache' = [s \in DOMAIN cache \ go |-> cache[s]]
    /\ ready' = [s \in DOMAIN ready \ forget |-> ready[s]]
    /\ checked' = [s \in DOMAIN checked \ forget |-> checked[s]]
    /\ excused' = excused \cup (failed \ done)
    /\ faults' = faults - Cardinality(failed)

Retire(t) ==
  LET n == th[t].n
      R == retired \cup {n}
      l2 == CHOOSE k \in least .. Cap + 1 : k \notin R /\ \A j \in least .. k - 1 : j \in R
      \* the subtrees that end at one of the numbers least+1 .. l2
      gone == {s \in Trees : \E m \in least + 1 .. l2 : End(s) = m}
  IN
  /\ th[t].pc = "retire"
  /\ least' = l2 /\ retired' = {r \in R : r >= l2}
  /\ Drop(gone)
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ UNCHANGED <<seq, bg, closing, closed, bad, pres, on>>

----------------------------------------------------------------------------
(* Sign *)

\* Does the key have this subtree?
Exists(s) == "beyond" \in Bugs \/ s[2] < Pow2(D * Th) \div Pow2(Th * (s[1] + 1))

Spawn(T, s) == With(T, <<"b", bg + 1>>, [Idle EXCEPT !.st = <<Frame(s)>>, !.pc = "background", !.bgs = s])

\* (by the first of the signers which have nothing to do: they are all the same)
Take(t) ==
  /\ th[t].pc = "idle" /\ t \in Signers
  /\ \A u \in Signers : u[2] < t[2] => th[u].pc # "idle"
  /\ ~closing /\ seq < Cap /\ seq < Stop
  /\ seq' = seq + 1
  /\ LET T == [th EXCEPT ![t] = [Idle EXCEPT !.pc = "sign", !.n = seq, !.st = <<Frame(Path(seq, D - 1))>>]] IN
       IF on /\ "lazy" \notin Bugs /\ (seq + 1) % Pow2(Th) = 0 /\ Exists(<<0, (seq + 1) \div Pow2(Th) + 1>>)
       THEN th' = Spawn(T, <<0, (seq + 1) \div Pow2(Th) + 1>>) /\ bg' = bg + 1
       ELSE th' = T /\ UNCHANGED bg
  /\ UNCHANGED <<ready, checked, cache, least, retired, closing, closed, faults, bad, pres, on, excused>>

\* The subtrees are fetched from the root down.
Next1(t) ==
  /\ th[t].pc = "sign" /\ ~Running(t)
  /\ IF ~th[t].res THEN th' = [th EXCEPT ![t].pc = "retire", ![t].have = {}]
     ELSE LET l == D - 1 - Cardinality(th[t].have) IN
          IF Cardinality(th[t].have) = D
          THEN th' = [th EXCEPT ![t].pc = "use"]
          ELSE th' = [th EXCEPT ![t].st = <<Frame(Path(th[t].n, l))>>]
  /\ UNCHANGED <<ready, checked, cache>> /\ Same

\* They are read, and so is the message.
Use(t) ==
  /\ th[t].pc = "use"
  /\ th' = [th EXCEPT ![t].pc = "retire", ![t].have = {}]
  /\ \/ UNCHANGED bad
     \/ bad > 0 /\ bad' = bad - 1
  /\ UNCHANGED <<ready, checked, cache, seq, least, retired, bg, closing, closed, faults, pres, on, excused>>

\* EnableSubTreePrecomputation
Enable ==
  /\ pres > 0 /\ pres' = pres - 1 /\ on' = TRUE
  /\ LET s == <<0, seq \div Pow2(Th) + 1>> IN
       IF Exists(s) /\ ~Has(ready, s) /\ ~closing
       THEN th' = Spawn(th, s) /\ bg' = bg + 1
       ELSE UNCHANGED <<th, bg>>
  /\ UNCHANGED <<ready, checked, cache, seq, least, retired, closing, closed, faults, bad, excused>>

\* A background worker is done: dropRetiredSubTrees.
BgDone(t) ==
  /\ th[t].pc = "background" /\ ~Running(t)
  /\ th' = Without(th, t)
  /\ LET s0 == th[t].bgs
         S == {Up(s0, l) : l \in 0 .. D - 1}
         gone == IF "nobgdrop" \in Bugs THEN {} ELSE
                 {s \in S : \A l \in 0 .. s[1] : End(Up(s0, l)) - 1 < least}
     IN Drop(gone)
  /\ UNCHANGED <<seq, least, retired, bg, closing, closed, bad, pres, on>>

----------------------------------------------------------------------------
(* Close *)
Busy == {t \in Threads : th[t].pc # "idle"}
Close ==
  /\ Closes /\ ~closing /\ closing' = TRUE
  /\ UNCHANGED <<ready, checked, cache, seq, least, retired, bg, th, closed, faults, bad, pres, on, excused>>
Closed ==
  /\ closing /\ ~closed
  /\ Busy = {} \/ "nowg" \in Bugs \/ ("nowgbg" \in Bugs /\ \A t \in Busy : th[t].pc = "background")
  /\ closed' = TRUE
  /\ UNCHANGED <<ready, checked, cache, seq, least, retired, bg, th, closing, faults, bad, pres, on, excused>>

Step(t) ==
  \/ Running(t) /\ (Enter(t) \/ Fill(t) \/ Ancestor(t) \/ Fetched(t) \/ Succeed(t))
  \/ ~Running(t) /\ (Next1(t) \/ Use(t) \/ Retire(t) \/ BgDone(t))
Work == \E t \in Threads : Step(t)
Next == (\E t \in Threads : Step(t) \/ Take(t)) \/ Enable \/ Close \/ Closed
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Signers \cup {<<"b", k>> : k \in 1 .. 4} : WF_vars(t \in Threads /\ Step(t)) /\ WF_vars(Closed)

----------------------------------------------------------------------------
(* Properties *)
Writing(t) == {th[t].st[k].s : k \in {j \in 1 .. Len(th[t].st) : th[t].st[j].pc \in {"fill", "ancestors", "fetched", "succeed"}}}

\* C08, C09: what is read by a Sign is complete and still there
Right == \A t \in Threads : \A s \in th[t].have : Has(cache, s) /\ cache[s] = "good"
\* C09: no buffer disappears while it is filled; only one thread fills it
Filled == \A t \in Threads : /\ Writing(t) \subseteq DOMAIN cache
                             /\ \A u \in Threads \ {t} : Writing(t) \cap Writing(u) = {}
\* C10: somebody can always go on
NoDeadlock == Busy # {} => \E t \in Busy : ~(Running(t) /\ Top(t).pc = "waiting")
\* C10, C19: nobody is at work on a closed key
ClosedIsQuiet == closed => Busy = {}
\* C09
Unretired == seq - least - Cardinality(retired) = Cardinality({t \in Signers : t \in Threads /\ th[t].pc # "idle"})
Dropped == Busy = {} => /\ \A s \in DOMAIN cache : End(s) > least \/ End(s) <= Start \/ s \in excused
                        /\ \A s \in DOMAIN ready : Has(cache, s)
                        /\ least = seq /\ retired = {}
\* What counts as ready is, unless nobody has looked yet
Ready == \A s \in DOMAIN ready : ready[s] /\ checked[s] => cache[s] = "good"

\* C27: nothing is computed which is there already
Once == \A t \in Threads : Running(t) /\ Top(t).pc = "fill" => ~Has(cache, Top(t).s) \/ cache[Top(t).s] # "good"

\* C24
Within == \A s \in DOMAIN cache : s[2] < Pow2(D * Th) \div Pow2(Th * (s[1] + 1))
StaysAhead == Busy = {} /\ on /\ ~closing /\ faults = MaxFaults =>
                LET s == <<0, seq \div Pow2(Th) + 1>> IN
                  Exists(s) => Has(cache, s) /\ Has(ready, s) /\ ready[s]

\* C10: every Sign, background worker and Close comes to an end
Progress == /\ \A t \in Signers : (th[t].pc # "idle") ~> (th[t].pc = "idle")
            /\ \A k \in 1 .. 4 : (<<"b", k>> \in Threads) ~> (<<"b", k>> \notin Threads)
            /\ closing ~> closed
=============================================================================
