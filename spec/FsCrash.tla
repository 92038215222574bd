------------------------------ MODULE FsCrash ------------------------------
(***************************************************************************)
(* A key on a file system that may lose power at any moment.               *)
(*                                                                         *)
(* A trace holds the system calls which the real code made on the          *)
(* directory of the key, and the beginnings and ends of the operations of  *)
(* the user.  The specification follows what is in the directory and what  *)
(* of it is durable:                                                       *)
(*  - changes of the directory are durable once the directory is synced;   *)
(*    of those not yet synced any subset may be, as long as the changes    *)
(*    which concern a common name happen in order;                         *)
(*  - the contents of a file are those at its last sync, or any since      *)
(*    then, or zeros (blocks that were allocated but not written).         *)
(* The directories a crash may leave are computed for every moment         *)
(* (Combos), loaded by the real code, and judged: Recoverable.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile,
          LoadedFile,   \* what the real code makes of the directories
          Pass,         \* 1: print the directories; 2: judge
          MaxPend       \* of how many unsynced changes subsets are considered

Traces == ndJsonDeserialize(TraceFile)
Loaded == IF Pass = 2 THEN ndJsonDeserialize(LoadedFile) ELSE <<>>

VARIABLES
  tr, i,
  names,   \* the directory: name -> file
  dur,     \* ... at its last sync
  pend,    \* changes since then
  cont,    \* contents of the files
  cands,   \* contents they may have after a power loss
  may,     \* the keys the path may hold, see Fits
  open,    \* the key of the handle of the user, if any
  doing    \* the call that is going on

vars == <<tr, i, names, dur, pend, cont, cands, may, open, doing>>

Tr == Traces[tr].ev
E == Tr[i]

None == [key |-> "none", lo |-> 0, hi |-> 0, lm |-> 0, lm0 |-> 0, exact |-> FALSE, res |-> 0, rec |-> FALSE, max |-> 0]
Fresh(k, n) == [key |-> k, lo |-> 0, hi |-> 0, lm |-> 0, lm0 |-> 0, exact |-> TRUE, res |-> 0, rec |-> TRUE, max |-> n]

Init ==
  /\ tr \in 1..Len(Traces) /\ i = 1
  /\ names = <<>> /\ dur = <<>> /\ pend = <<>> /\ cont = <<>> /\ cands = <<>>
  /\ may = {None} /\ open = "none" /\ doing = "none"

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

----------------------------------------------------------------------------
(* The directory *)

Apply(d, p) ==
  CASE p.k = "link" -> Put(d, p.a, p.ino)
    [] p.k = "unlink" -> Del(d, p.a)
    [] p.k = "rename" -> Put(Del(d, p.a), p.b, p.ino)

Touches(p) == IF p.k = "rename" THEN {p.a, p.b} ELSE {p.a}

RECURSIVE ApplyAll(_, _, _)
ApplyAll(d, k, S) ==
  IF k > Len(pend) THEN d
  ELSE ApplyAll(IF k \in S THEN Apply(d, pend[k]) ELSE d, k + 1, S)

(* Which unsynced changes may have become durable *)
Subsets ==
  {S \in SUBSET (1..Len(pend)) :
     \A j \in S : \A k \in 1..(j - 1) : Touches(pend[k]) \cap Touches(pend[j]) # {} => k \in S}
  \cup {{}}

Prefixes == {1..k : k \in 0..Len(pend)}

DirsAfterCrash == {ApplyAll(dur, 1, S) : S \in (IF Len(pend) <= MaxPend THEN Subsets ELSE Prefixes)}

RECURSIVE Fill(_, _)
(* All ways to choose the contents of the files of a directory *)
Fill(d, ns) ==
  IF ns = {} THEN {<<>>}
  ELSE LET n == CHOOSE n \in ns : TRUE IN
       {Put(f, n, c) : f \in Fill(d, ns \ {n}), c \in cands[d[n]]}

Combos == UNION {Fill(d, DOMAIN d) : d \in DirsAfterCrash}
Durable == pend = <<>> /\ \A n \in DOMAIN names : n = "key" => Cardinality(cands[names[n]]) = 1
(* ... after the process is killed *)
Now == [n \in DOMAIN names |-> cont[names[n]]]

----------------------------------------------------------------------------
(* System calls *)
Api == UNCHANGED <<may, open, doing>>
Step == i' = i + 1 /\ UNCHANGED tr

Change(p) == pend' = Append(pend, p) /\ names' = Apply(names, p)

Sys ==
  /\ \/ /\ E.e = "creat"
        /\ Change([k |-> "link", a |-> E.a, b |-> "", ino |-> E.ino])
        /\ cont' = Put(cont, E.ino, E.c) /\ cands' = Put(cands, E.ino, {E.c})
        /\ UNCHANGED dur
     \/ /\ E.e = "write"                       \* or truncation
        /\ cont' = Put(cont, E.ino, E.c)
        /\ cands' = Put(cands, E.ino, cands[E.ino] \cup {E.c, E.z})
        /\ UNCHANGED <<names, dur, pend>>
     \/ /\ E.e = "opaque"                      \* contents which are not followed
        /\ cont' = Put(cont, E.ino, E.c) /\ cands' = Put(cands, E.ino, {E.c})
        /\ UNCHANGED <<names, dur, pend>>
     \/ /\ E.e = "sync"
        /\ cands' = Put(cands, E.ino, {cont[E.ino]})
        /\ UNCHANGED <<names, dur, pend, cont>>
     \/ /\ E.e = "syncdir"
        /\ dur' = names /\ pend' = <<>>
        /\ UNCHANGED <<names, cont, cands>>
     \/ /\ E.e = "syncall"
        /\ dur' = names /\ pend' = <<>>
        /\ cands' = [x \in DOMAIN cont |-> {cont[x]}]
        /\ UNCHANGED <<names, cont>>
     \/ /\ E.e = "rename"
        /\ IF E.a \in DOMAIN names
           THEN Change([k |-> "rename", a |-> E.a, b |-> E.b, ino |-> names[E.a]])
           ELSE UNCHANGED <<names, pend>>
        /\ UNCHANGED <<dur, cont, cands>>
     \/ /\ E.e = "link"
        /\ Change([k |-> "link", a |-> E.b, b |-> "", ino |-> names[E.a]])
        /\ UNCHANGED <<dur, cont, cands>>
     \/ /\ E.e = "unlink"
        /\ IF E.a \in DOMAIN names
           THEN Change([k |-> "unlink", a |-> E.a, b |-> "", ino |-> names[E.a]])
           ELSE UNCHANGED <<names, pend>>
        /\ UNCHANGED <<dur, cont, cands>>
  /\ Api /\ Step

----------------------------------------------------------------------------
(* Operations of the user *)
Disk == UNCHANGED <<names, dur, pend, cont, cands>>

Map(f(_)) == {f(m) : m \in may}
Mine(m) == m.key = open
Creating(op) == op \in {"derive", "generate", "generate2"}

Call ==
  /\ E.e = "call"
  /\ doing' = E.op
  /\ may' = CASE Creating(E.op) -> may \cup {Fresh(E.key, E.max)}
              [] E.op \in {"sign", "signbad"} ->
                   Map(LAMBDA m : IF Mine(m) THEN [m EXCEPT !.hi = @ + 1, !.exact = FALSE] ELSE m)
              [] E.op = "helper" ->
                   Map(LAMBDA m : IF m.key # "none" THEN [m EXCEPT !.hi = @ + m.lm + 1, !.exact = FALSE] ELSE m)
              [] E.op \in {"borrow", "borrowif"} ->
                   Map(LAMBDA m : IF Mine(m) THEN [m EXCEPT !.lm0 = m.lm, !.lm = @ + E.n, !.exact = FALSE] ELSE m)
              [] E.op = "danger" ->
                   Map(LAMBDA m : IF Mine(m) THEN [m EXCEPT !.hi = @ + E.n, !.exact = FALSE] ELSE m)
              [] OTHER -> may
  /\ UNCHANGED open /\ Disk /\ Step

(* What the real code makes of a directory *)
Look(d) ==
  LET t == Loaded[tr].dirs
      k == CHOOSE k \in 1..Len(t) : t[k].f = d
  IN  t[k].r

Lookup == Pass = 2
NoKey(d) == "key" \notin DOMAIN d

(* The key m can be what is found in the directory d *)
Fits(d, m) ==
  IF NoKey(d) THEN m.key = "none"
  ELSE LET r == Look(d) IN
       /\ m.key # "none"
       /\ \/ r.ok
          \/ m.hi + m.lm > m.max           \* reserved beyond its end: may be refused (C04)
       /\ r.ok =>
            /\ r.key = m.key                \* it loads with the right public key
            /\ r.sign                       \* and signs properly
            /\ r.seq >= m.lo                \* above all that was released
            /\ r.seq - r.lost <= m.hi       \* skipped numbers are reported lost
            /\ r.lost <= m.lm               \* of those reserved
            /\ m.exact => r.lost = 0        \* and properly closed: none

(* Reserve n instead of b.  Reservations since the last record add up. *)
Reserve(m, b, n) ==
  IF n = b THEN [m EXCEPT !.lm = m.lm0]
  ELSE [m EXCEPT !.res = n, !.rec = TRUE, !.lm = IF n > b THEN m.lm0 + (n - b) ELSE IF n > m.lm0 THEN n ELSE m.lm0]

(* The lost count is repeated until something is recorded. *)
Clean(m) == [m EXCEPT !.exact = m.rec, !.res = 0]

Ret ==
  /\ E.e = "ret"
  /\ doing' = "none"
  /\ CASE Creating(E.op) ->
            IF E.ok THEN may' = {Fresh(E.key, E.max)} /\ open' = E.key
            ELSE UNCHANGED <<may, open>>
       [] E.op = "load" ->
            IF E.ok
            THEN /\ open' = E.key
                 /\ Lookup => LET r == Look(Now) IN r.ok /\ r.key = E.key /\ r.seq = E.val /\ r.lost = E.lost
                 /\ LET new == [key |-> E.key, lo |-> E.val, hi |-> E.val, lm |-> E.lost, lm0 |-> E.lost, exact |-> FALSE, res |-> 0, rec |-> FALSE, max |-> E.max]
                    \* (what was loaded need not be durable)
                    IN may' = IF Durable THEN {new} ELSE may \cup {new}
            ELSE /\ E.fault \/ \E m \in may : m = None \/ m.hi + m.lm > m.max
                 /\ UNCHANGED <<may, open>>
       [] E.op = "sign" ->
            IF E.ok
            THEN /\ \E m \in may : Mine(m) /\ E.val >= m.lo /\ E.val < m.hi  \* no number twice
                 /\ may' = {[m EXCEPT !.lo = E.val + 1, !.hi = E.val + 1, !.res = IF @ > 0 THEN @ - 1 ELSE 0,
                                      !.lm = IF m.res = 0 THEN 0 ELSE @, !.rec = TRUE] : m \in {m \in may : Mine(m)}}
                 /\ UNCHANGED open
            ELSE UNCHANGED <<may, open>>
       [] E.op = "helper" ->
            IF E.ok
            THEN /\ \E m \in may : m.key # "none" /\ E.val >= m.lo
                 /\ may' = {[m EXCEPT !.lo = E.val + 1, !.hi = E.val + 1, !.lm = 0, !.exact = TRUE, !.res = 0, !.rec = TRUE]
                              : m \in {m \in may : m.key # "none"}}
                 /\ UNCHANGED open
            ELSE UNCHANGED <<may, open>>
       [] E.op \in {"borrow", "borrowif"} ->
            /\ may' = IF ~E.ok \/ (E.op = "borrowif" /\ E.res > E.t) THEN may
                      ELSE Map(LAMBDA m : IF Mine(m) THEN Reserve(m, E.res, E.n) ELSE m)
            /\ UNCHANGED open
       [] E.op = "close" ->
            /\ may' = IF E.ok THEN Map(LAMBDA m : IF Mine(m) THEN Clean(m) ELSE m) ELSE may
            /\ open' = "none"
       [] OTHER -> UNCHANGED <<may, open>>
  /\ Disk /\ Step

(* The process ends *)
Die ==
  /\ E.e = "die"
  /\ open' = "none" /\ doing' = "none"
  /\ UNCHANGED may /\ Disk /\ Step

Done == i = Len(Tr) + 1
Next == ~Done /\ (Sys \/ Call \/ Ret \/ Die)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Bad == {d \in Combos \cup {Now} : ~\E m \in may : Fits(d, m)}

Report ==
  /\ Pass = 1 => PrintT(ToJson([tr |-> tr, at |-> i, done |-> Done, dirs |-> Combos \cup {Now}]))
  /\ Pass = 2 => PrintT(<<IF Done THEN "accepted" ELSE "at", tr, i>>)
  /\ Pass = 2 /\ Bad # {} =>
       PrintT(ToJson([tr |-> tr, at |-> i, doing |-> doing, may |-> may, bad |-> LET d == CHOOSE d \in Bad : TRUE IN <<d, IF NoKey(d) THEN "no key" ELSE Look(d)>>]))
=============================================================================
