-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* How much has to be computed.  What is expensive is a subtree; a Sign    *)
(* needs one on each layer; a subtree that is intact in the cache does not *)
(* have to be computed.                                                    *)
(*                                                                         *)
(* Histories of the real code: for every operation the processor time it   *)
(* took (until the background work it began is done), in thousandths of    *)
(* what a subtree costs, and the subtrees in the cache afterwards.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Histories == ndJsonDeserialize("histories.ndjson")

VARIABLES
  t, i,
  cached,  \* subtrees in the cache
  intact,  \* those which are known to be complete and undamaged
  ahead    \* is precomputation on?
vars == <<t, i, cached, intact, ahead>>

H == Histories[t].p
E == Histories[t].ev[i + 1]
Pow2(k) == 2 ^ k
Th == H.h \div H.d
Last == Pow2(H.h) - 2   \* the last number
Seen(e) == {<<e.cached[k][1], e.cached[k][2]>> : k \in 1 .. Len(e.cached)}
Damaged(e) == {<<e.damaged[k][1], e.damaged[k][2]>> : k \in 1 .. Len(e.damaged)}

\* The subtrees which are needed to sign with the number s
Path(s) == {<<l, s \div Pow2(Th * (l + 1))>> : l \in 0 .. H.d - 1}
Root == <<H.d - 1, 0>>
\* The next one on the bottom layer, and those which sign it
Ahead(s) == LET n == (s \div Pow2(Th) + 1) * Pow2(Th) IN IF n > Last THEN {} ELSE Path(n)
Used(e) == {s \in e.s .. e.s + e.k - 1 : s <= Last}

\* What certainly is used by an operation
Must(e) == IF e.op = "Load" THEN {Root}
           ELSE UNION {Path(s) : s \in Used(e)}
\* What may be
May(e) ==
  CASE e.op \in {"Load", "SignOnce", "Refused"} -> {Root} \cup Must(e)
    [] e.op = "Create" -> Path(0)
    [] e.op \in {"Sign", "SignMany"} -> Must(e) \cup IF ahead THEN UNION {Ahead(s) : s \in e.s .. e.s + e.k} ELSE {}
    [] e.op = "Precompute" -> Ahead(e.s)
    [] OTHER -> {}

Init == /\ t \in 1 .. Len(Histories) /\ i = 0
        /\ cached = {} /\ intact = {} /\ ahead = FALSE

\* Each of them once, unless it is in the cache
Allowed(e) == Cardinality(May(e) \ intact)
\* Making a signature, and measuring, cost something as well.
Slack(e) == 450 + (e.k * H.d * 1000) \div Pow2(Th)

Next ==
  /\ i < Len(Histories[t].ev) /\ i' = i + 1 /\ UNCHANGED t
  /\ cached' = Seen(E)
  /\ ahead' = CASE E.op = "Precompute" -> TRUE
                [] E.op \in {"Create", "Load"} -> FALSE
                [] OTHER -> ahead
  /\ intact' = CASE E.op = "Lose" -> {}
                 [] OTHER -> ((intact \cup Must(E) \cup (cached' \ cached)) \cap cached') \ Damaged(E)
  /\ E.work <= 2000 * Allowed(E) + Slack(E)

Spec == Init /\ [][Next]_vars
Told == PrintT(<<"at", t, i>>)
=============================================================================
