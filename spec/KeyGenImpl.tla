----------------------------- MODULE KeyGenImpl -----------------------------
(***************************************************************************)
(* The way keys are generated: each seed is filled from the source, which  *)
(* hands out at most as many bytes as asked for and may fail at any time.  *)
(* Bytes of the stream are numbered; a byte of a seed is the number of the *)
(* byte it came from, or 0 if it did not come from the source.             *)
(*                                                                         *)
(* With Bugs = {} the properties of KeyGen.tla hold; with any of           *)
(*   short   a single read is taken to fill the seed                       *)
(*   ignore  errors of the source are ignored                              *)
(*   shared  one buffer serves as two seeds                                *)
(* they do not.                                                            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS N, Keys, Bugs
VARIABLES pos, key, cur, seed, done

vars == <<pos, key, cur, seed, done>>
Empty == [k \in 1 .. 3 |-> [b \in 1 .. N |-> 0]]

Init == pos = 0 /\ key = 1 /\ cur = [s |-> 1, b |-> 0] /\ seed = Empty
        /\ done = {}  \* finished keys: functions like seed

Write(s, f) == IF "shared" \in Bugs /\ s \in {1, 2}
               THEN [seed EXCEPT ![1] = f, ![2] = f] ELSE [seed EXCEPT ![s] = f]

(* Reads c bytes into the current seed. *)
Read ==
  /\ key <= Keys /\ cur.s <= 3
  /\ \E c \in 0 .. N - cur.b :
       /\ pos' = pos + c
       /\ seed' = Write(cur.s, [b \in 1 .. N |-> IF b > cur.b /\ b <= cur.b + c THEN pos + b - cur.b
                                                ELSE seed[cur.s][b]])
       /\ cur' = IF cur.b + c = N \/ ("short" \in Bugs /\ c > 0) THEN [s |-> cur.s + 1, b |-> 0]
                 ELSE [s |-> cur.s, b |-> cur.b + c]
       /\ c > 0
  /\ UNCHANGED <<key, done>>

Fail ==
  /\ key <= Keys /\ cur.s <= 3
  /\ IF "ignore" \in Bugs
     THEN cur' = [s |-> cur.s + 1, b |-> 0] /\ UNCHANGED <<key, seed>>
     ELSE cur' = [s |-> 1, b |-> 0] /\ key' = key + 1 /\ seed' = Empty
  /\ UNCHANGED <<pos, done>>

Store ==
  /\ key <= Keys /\ cur.s = 4
  /\ done' = done \cup {seed}
  /\ key' = key + 1 /\ cur' = [s |-> 1, b |-> 0] /\ seed' = Empty
  /\ UNCHANGED pos

Next == Read \/ Fail \/ Store
Spec == Init /\ [][Next]_vars

Places == {<<s, b>> : s \in 1 .. 3, b \in 1 .. N}
NotMadeUp == \A k \in done : \A p \in Places : k[p[1]][p[2]] \in 1 .. pos
Fresh ==
  \A k \in done : \A l \in done : \A p \in Places : \A q \in Places :
    (k[p[1]][p[2]] = l[q[1]][q[2]]) => (k = l /\ p = q)
=============================================================================
