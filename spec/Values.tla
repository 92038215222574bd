------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Keys, public keys, signatures and the caller's buffers as independent   *)
(* values: an operation changes the object it is called on, or the one it  *)
(* returns, and nothing else, whatever is done to buffers that were passed *)
(* in or returned earlier, and whatever has become of the objects a value  *)
(* was derived from (a closed handle, a dropped subtree, a reused object). *)
(*                                                                         *)
(* There are two keys.  Key 1 lives through this module; key 2 only serves *)
(* to have other values.  The signature with number i of key 1 is value i, *)
(* the one of key 2 is Other.                                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC, Json

CONSTANTS
  PkSlots, SigSlots,  \* objects of the user
  MaxN,               \* signatures of key 1
  Vias,               \* ways to serialize
  Seeds               \* may the caller wipe the seeds the key was made from?

None == -1
Other == -2

VARIABLES
  h,      \* handle of key 1: "none", "open", "closed"
  n,      \* next number
  wiped,  \* have the seeds given to Derive been overwritten?
  pk,     \* slot -> 0: nothing; 1, 2: public key of ...
  sg,     \* slot -> None, Other or number
  buf,    \* the caller's buffer: what it holds
  act

vars == <<h, n, wiped, pk, sg, buf, act>>
view == <<h, n, wiped, pk, sg, buf>>

Junk == [kind |-> "junk", v |-> 0]

Init ==
  /\ h = "none" /\ n = 0 /\ wiped = FALSE
  /\ pk = [p \in PkSlots |-> 0] /\ sg = [g \in SigSlots |-> None]
  /\ buf = Junk
  /\ act = [a |-> [op |-> "Init"], o |-> [ok |-> TRUE]]

Valid(k, s) == \/ k = 1 /\ s >= 0
               \/ k = 2 /\ s = Other

(* Everything there is, is looked at after every step. *)
Obs(hh, nn, p, s, b) ==
  [pk |-> p, sg |-> s, buf |-> b,
   own |-> IF hh = "none" THEN 0 ELSE 1,
   next |-> IF hh = "none" THEN 0 ELSE nn,
   valid |-> [x \in PkSlots |-> [y \in SigSlots |-> Valid(p[x], s[y])]]]
Do(a, ok) == act' = [a |-> a, o |-> [ok |-> ok] @@ Obs(h', n', pk', sg', buf')]

Derive ==
  /\ h = "none" /\ h' = "open"
  /\ \E p \in PkSlots :
       /\ pk' = [pk EXCEPT ![p] = 1]
       /\ UNCHANGED <<n, wiped, sg, buf>>
       /\ Do([op |-> "Derive", p |-> p], TRUE)

(* The caller overwrites the seeds it passed to Derive. *)
Wipe ==
  /\ Seeds /\ h # "none" /\ ~wiped /\ wiped' = TRUE
  /\ UNCHANGED <<h, n, pk, sg, buf>>
  /\ Do([op |-> "Wipe"], TRUE)

(* (The buffer with the message is overwritten as soon as Sign returned.) *)
Sign(g) ==
  /\ h = "open" /\ n < MaxN
  /\ n' = n + 1 /\ sg' = [sg EXCEPT ![g] = n]
  /\ UNCHANGED <<h, wiped, pk, buf>>
  /\ Do([op |-> "Sign", g |-> g], TRUE)

MarshalPk(p, v) ==
  /\ pk[p] # 0
  /\ buf' = [kind |-> "pk", v |-> pk[p]]
  /\ UNCHANGED <<h, n, wiped, pk, sg>>
  /\ Do([op |-> "MarshalPk", p |-> p, via |-> v], TRUE)

MarshalSig(g, v) ==
  /\ sg[g] # None /\ v # "text"
  /\ buf' = [kind |-> "sig", v |-> sg[g]]
  /\ UNCHANGED <<h, n, wiped, pk, sg>>
  /\ Do([op |-> "MarshalSig", g |-> g, via |-> v], TRUE)

(* The caller's buffer is the caller's. *)
Scribble ==
  /\ buf.kind # "junk"
  /\ buf' = Junk
  /\ UNCHANGED <<h, n, wiped, pk, sg>>
  /\ Do([op |-> "Scribble"], TRUE)
Truncate ==
  /\ buf.kind \in {"pk", "sig"}
  /\ buf' = [kind |-> "short", v |-> 0]
  /\ UNCHANGED <<h, n, wiped, pk, sg>>
  /\ Do([op |-> "Truncate"], TRUE)

(* An object can be reused; if that fails it is what it was.  *)
UnmarshalPk(p, v) ==
  /\ UNCHANGED <<h, n, wiped, sg, buf>>
  /\ IF buf.kind = "pk"
     THEN /\ pk' = [pk EXCEPT ![p] = buf.v]
          /\ Do([op |-> "UnmarshalPk", p |-> p, via |-> v], TRUE)
     ELSE /\ UNCHANGED pk
          /\ Do([op |-> "UnmarshalPk", p |-> p, via |-> v], FALSE)

UnmarshalSig(g) ==
  /\ UNCHANGED <<h, n, wiped, pk, buf>>
  /\ IF buf.kind = "sig"
     THEN /\ sg' = [sg EXCEPT ![g] = buf.v]
          /\ Do([op |-> "UnmarshalSig", g |-> g], TRUE)
     ELSE /\ UNCHANGED sg
          /\ Do([op |-> "UnmarshalSig", g |-> g], FALSE)

(* The public key or a signature of the other key arrives. *)
ReceivePk ==
  /\ buf' = [kind |-> "pk", v |-> 2]
  /\ UNCHANGED <<h, n, wiped, pk, sg>>
  /\ Do([op |-> "ReceivePk"], TRUE)
ReceiveSig ==
  /\ buf' = [kind |-> "sig", v |-> Other]
  /\ UNCHANGED <<h, n, wiped, pk, sg>>
  /\ Do([op |-> "ReceiveSig"], TRUE)

(* The handle is asked for its public key. *)
PublicKey(p) ==
  /\ h # "none"
  /\ pk' = [pk EXCEPT ![p] = 1]
  /\ UNCHANGED <<h, n, wiped, sg, buf>>
  /\ Do([op |-> "PublicKey", p |-> p], TRUE)

(* Plain copies of the values (q := *p) *)
CopyPk(p, q) ==
  /\ p # q /\ pk[p] # 0
  /\ pk' = [pk EXCEPT ![q] = pk[p]]
  /\ UNCHANGED <<h, n, wiped, sg, buf>>
  /\ Do([op |-> "CopyPk", p |-> p, q |-> q], TRUE)
CopySig(g, f) ==
  /\ g # f /\ sg[g] # None
  /\ sg' = [sg EXCEPT ![f] = sg[g]]
  /\ UNCHANGED <<h, n, wiped, pk, buf>>
  /\ Do([op |-> "CopySig", g |-> g, f |-> f], TRUE)

Close ==
  /\ h = "open" /\ h' = "closed"
  /\ UNCHANGED <<n, wiped, pk, sg, buf>>
  /\ Do([op |-> "Close"], TRUE)
Load ==
  /\ h = "closed" /\ h' = "open"
  /\ \E p \in PkSlots :
       /\ pk' = [pk EXCEPT ![p] = 1]
       /\ UNCHANGED <<n, wiped, sg, buf>>
       /\ Do([op |-> "Load", p |-> p], TRUE)

(* All objects are used by many goroutines at once, both keys (made with   *)
(* the same Context) sign while it goes on.                                *)
Together ==
  /\ \E d \in {0, 2} :
       /\ d = 2 <=> (h = "open" /\ n + 2 <= MaxN)
       /\ n' = n + d
  /\ UNCHANGED <<h, wiped, pk, sg, buf>>
  /\ Do([op |-> "Together", sign |-> n' # n], TRUE)

Next ==
  \/ Derive \/ Wipe \/ Scribble \/ Truncate \/ ReceivePk \/ ReceiveSig
  \/ Close \/ Load \/ Together
  \/ \E p \in PkSlots : \/ PublicKey(p)
                        \/ \E v \in Vias : MarshalPk(p, v) \/ UnmarshalPk(p, v)
                        \/ \E q \in PkSlots : CopyPk(p, q)
  \/ \E g \in SigSlots : \/ Sign(g) \/ UnmarshalSig(g)
                         \/ \E v \in Vias : MarshalSig(g, v)
                         \/ \E f \in SigSlots : CopySig(g, f)

Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ h \in {"none", "open", "closed"} /\ n \in 0 .. MaxN /\ wiped \in BOOLEAN
  /\ pk \in [PkSlots -> 0 .. 2]
  /\ sg \in [SigSlots -> {None, Other} \cup (0 .. MaxN)]

(* An action changes what it names. *)
Touched(a, f) == IF f \in DOMAIN a THEN {a[f]} ELSE {}
Frame ==
  [][ /\ \A p \in PkSlots : pk'[p] # pk[p] =>
           p \in (IF act'.a.op = "CopyPk" THEN Touched(act'.a, "q") ELSE Touched(act'.a, "p"))
      /\ \A g \in SigSlots : sg'[g] # sg[g] =>
           g \in (IF act'.a.op = "CopySig" THEN Touched(act'.a, "f") ELSE Touched(act'.a, "g"))
      /\ buf' # buf => act'.a.op \in {"MarshalPk", "MarshalSig", "Scribble", "Truncate", "ReceivePk", "ReceiveSig"}
      /\ n' # n => act'.a.op \in {"Sign", "Together"} ]_vars
(* No signature appears twice by signing. *)
Fresh ==
  [][ act'.a.op = "Sign" => \A g \in SigSlots : sg[g] # sg'[act'.a.g] ]_vars

----------------------------------------------------------------------------
St(hh, nn, w, p, s, b) == [h |-> hh, n |-> nn, wiped |-> w, pk |-> p, sg |-> s, buf |-> b]
Emit ==
  PrintT(ToJson([s |-> St(h, n, wiped, pk, sg, buf), a |-> act'.a, o |-> act'.o,
                 t |-> St(h', n', wiped', pk', sg', buf')]))
=============================================================================
