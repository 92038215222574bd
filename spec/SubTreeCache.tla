---------------------------- MODULE SubTreeCache ----------------------------
(***************************************************************************)
(* The cache of subtrees, store by store.                                  *)
(*                                                                         *)
(* A slot has a header (is it in use, and for which subtree), and a buffer *)
(* which consists of the subtree, its WOTS+ signature by the parent and a  *)
(* checksum.  Generating a subtree writes them one after the other; a slot *)
(* is reused without clearing it.  In a power loss every part of each slot *)
(* is what it is now, or anything it was since the process began (parts    *)
(* need not lie in one block).  Besides, parts get damaged, and the cache  *)
(* of another key may appear.                                              *)
(*                                                                         *)
(* Who loads the key trusts a slot if and only if its checksum is right.   *)
(* UsedIsRight: whatever is trusted is the subtree it is taken for.        *)
(* This needs a checksum that covers the address of the subtree and the    *)
(* identity of the key (Bind).                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Trees,     \* addresses of subtrees
  NSlots,
  Bind,      \* what the checksum covers besides the contents: {"addr", "key"}
  MaxDamage, \* how many parts get damaged
  MaxCrash

Slots == 1..NSlots
(* Contents: of which key and tree; "x" is none of them. *)
Right(a) == <<"me", a>>
Garbage == <<"x", "x">>
Contents == {Right(a) : a \in Trees} \cup {<<"other", a>> : a \in Trees} \cup {Garbage}

(* What a checksum was computed over *)
SumOf(k, a, t, w) ==
  [k |-> IF "key" \in Bind THEN k ELSE "any", a |-> IF "addr" \in Bind THEN a ELSE "any", t |-> t, w |-> w]
NoSum == [k |-> "x", a |-> "x", t |-> Garbage, w |-> Garbage]
Empty == [al |-> FALSE, a |-> CHOOSE a \in Trees : TRUE, t |-> Garbage, w |-> Garbage, s |-> NoSum]

VARIABLES
  mem,     \* slot -> what the process sees in it
  was,     \* slot -> what its parts were since the process began
  ready,   \* tree -> slot, of the running process; 0: none
  trust,   \* trees whose checksum was found to be right, or which were generated
  gen,     \* the generation going on: [a, k, step]
  up,      \* is the process running?
  damage, crashes

vars == <<mem, was, ready, trust, gen, up, damage, crashes>>

Idle == [a |-> "none", k |-> 0, step |-> 0]
NoneReady == [a \in Trees |-> 0]

(* What a power loss may bring back *)
Hist(x) == [h |-> {<<x.al, x.a>>}, t |-> {x.t}, w |-> {x.w}, s |-> {x.s}]
Forget(m) == was' = [k \in Slots |-> Hist(m[k])]
Add(h, x) == [h |-> h.h \cup {<<x.al, x.a>>}, t |-> h.t \cup {x.t}, w |-> h.w \cup {x.w}, s |-> h.s \cup {x.s}]
Note == was' = [k \in Slots |-> Add(was[k], mem'[k])]

Init ==
  /\ mem = [k \in Slots |-> Empty] /\ was = [k \in Slots |-> Hist(mem[k])]
  /\ ready = NoneReady /\ trust = {} /\ gen = Idle
  /\ up = TRUE /\ damage = 0 /\ crashes = 0

Valid(x) == x.s = SumOf("me", x.a, x.t, x.w)

(* Generating the subtree a in the slot k *)
Start(a, k) ==
  /\ up /\ gen = Idle /\ ready[a] = 0
  /\ ~\E b \in Trees : ready[b] = k
  /\ ~mem[k].al \/ mem[k].a = a
  /\ mem' = [mem EXCEPT ![k].al = TRUE, ![k].a = a]
  /\ gen' = [a |-> a, k |-> k, step |-> 1] /\ Note
  /\ UNCHANGED <<ready, trust, up, damage, crashes>>

(* ... or again, as its checksum is wrong *)
Check(a) ==
  /\ up /\ gen = Idle /\ ready[a] # 0 /\ a \notin trust
  /\ IF Valid(mem[ready[a]])
     THEN trust' = trust \cup {a} /\ UNCHANGED <<gen, ready>>
     ELSE gen' = [a |-> a, k |-> ready[a], step |-> 1] /\ ready' = [ready EXCEPT ![a] = 0] /\ UNCHANGED trust
  /\ UNCHANGED <<mem, was, up, damage, crashes>>

Write ==
  /\ up /\ gen # Idle
  /\ \/ gen.step = 1 /\ mem' = [mem EXCEPT ![gen.k].t = Right(gen.a)] /\ gen' = [gen EXCEPT !.step = 2]
     \/ gen.step = 2 /\ mem' = [mem EXCEPT ![gen.k].w = Right(gen.a)] /\ gen' = [gen EXCEPT !.step = 3]
     \/ gen.step = 3 /\ gen' = Idle
        /\ mem' = [mem EXCEPT ![gen.k].s = SumOf("me", gen.a, mem[gen.k].t, mem[gen.k].w)]
  /\ IF gen.step = 3 THEN ready' = [ready EXCEPT ![gen.a] = gen.k] /\ trust' = trust \cup {gen.a}
                     ELSE UNCHANGED <<ready, trust>>
  /\ Note
  /\ UNCHANGED <<up, damage, crashes>>

Drop(a) ==
  /\ up /\ gen = Idle /\ ready[a] # 0
  /\ mem' = [mem EXCEPT ![ready[a]].al = FALSE]
  /\ ready' = [ready EXCEPT ![a] = 0] /\ trust' = trust \ {a}
  /\ Note
  /\ UNCHANGED <<gen, up, damage, crashes>>

(* Power loss *)
Mixes(k) ==
  {[al |-> h[1], a |-> h[2], t |-> t, w |-> w, s |-> s] : h \in was[k].h, t \in was[k].t, w \in was[k].w, s \in was[k].s}

Crash ==
  /\ up /\ crashes < MaxCrash
  /\ up' = FALSE /\ crashes' = crashes + 1
  /\ mem' \in {f \in [Slots -> UNION {Mixes(k) : k \in Slots}] : \A k \in Slots : f[k] \in Mixes(k)}
  /\ ready' = NoneReady /\ trust' = {} /\ gen' = Idle
  /\ Forget(mem')
  /\ UNCHANGED damage

Stop ==
  /\ up /\ gen = Idle /\ crashes < MaxCrash
  /\ up' = FALSE /\ crashes' = crashes + 1
  /\ Forget(mem)
  /\ ready' = NoneReady /\ trust' = {}
  /\ UNCHANGED <<mem, gen, damage>>

Damage ==
  /\ ~up /\ damage < MaxDamage
  /\ \E k \in Slots :
       \E x \in {[mem[k] EXCEPT !.t = Garbage], [mem[k] EXCEPT !.w = Garbage], [mem[k] EXCEPT !.s = NoSum],
                 [mem[k] EXCEPT !.al = ~@]}
               \cup {[mem[k] EXCEPT !.a = a] : a \in Trees}
               \* a subtree of another key's cache
               \cup {[al |-> TRUE, a |-> a, t |-> <<"other", a>>, w |-> <<"other", a>>,
                      s |-> SumOf("other", a, <<"other", a>>, <<"other", a>>)] : a \in Trees} :
         /\ x # mem[k]
         /\ mem' = [mem EXCEPT ![k] = x] /\ Forget(mem')
  /\ damage' = damage + 1
  /\ UNCHANGED <<ready, trust, gen, up, crashes>>

(* If there are several slots for a subtree, the last one is taken. *)
Load ==
  /\ ~up
  /\ up' = TRUE
  /\ ready' = [a \in Trees |->
       LET ks == {k \in Slots : mem[k].al /\ mem[k].a = a}
       IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k]
  /\ UNCHANGED <<mem, was, trust, gen, damage, crashes>>

Next ==
  \/ \E a \in Trees : Check(a) \/ Drop(a) \/ \E k \in Slots : Start(a, k)
  \/ Write \/ Crash \/ Stop \/ Damage \/ Load
Spec == Init /\ [][Next]_vars

UsedIsRight ==
  \A a \in trust : LET x == mem[ready[a]] IN x.t = Right(a) /\ x.w = Right(a)

(* The slots which are found after a power loss or damage are composed on  *)
(* a real cache; see harness/cachelife.go.                                 *)
P(c) == c[1] \o ":" \o c[2]
Slot(x) == [al |-> x.al, a |-> x.a, t |-> P(x.t), w |-> P(x.w), sk |-> x.s.k, sa |-> x.s.a, st |-> P(x.s.t), sw |-> P(x.s.w)]
Emit == (~up /\ crashes > 0) => PrintT(ToJson([slots |-> {Slot(mem[k]) : k \in {k \in Slots : mem[k].al}}]))
=============================================================================
