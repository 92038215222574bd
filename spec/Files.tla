------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The files in which a private key is stored: the key file and the cache  *)
(* of subtrees, byte by byte, as they have been since they were introduced *)
(* (formats 0 and 1 of the cache).                                         *)
(*                                                                         *)
(* 1. Cases (cases.ndjson): states of a key for which the files are wanted *)
(*    as an earlier version of the library would have left them.  TLC      *)
(*    prints them, the real code has to read them.                         *)
(* 2. Histories (histories.ndjson): operations on the real container and   *)
(*    what was in the files after each of them.  Accepted if these are     *)
(*    always the files of the state.                                       *)
(***************************************************************************)
EXTENDS FileFormat, Sequences, FiniteSets, TLC, Json

Cases == ndJsonDeserialize("cases.ndjson")
Histories == ndJsonDeserialize("histories.ndjson")

U16(x) == <<x \div 256, x % 256>>
U32(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
FromU32(b) == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]

KeyMagic == <<64, 137, 67, 10, 92, 237, 104, 68>>
CacheMagic0 == <<231, 121, 87, 96, 126, 247, 148, 70>>
CacheMagic1 == <<90, 17, 215, 207, 74, 31, 99, 20>>

-----------------------------------------------------------------------------
(* The key file.  Numbers which can be large are given as bytes.           *)
(* (func: 0 SHA2, 1 SHAKE, 2 SHAKE256; prf: 0 RFC, 1 NIST)                 *)
Params(p) == <<p.func>> \o U32(p.n) \o U32(p.h) \o U32(p.d) \o U16(p.w) \o <<p.prf>>
KeyFile(k) == KeyMagic \o Params(k.p) \o k.seq \o k.bor \o k.secret
KeyHeaderSize == 8 + 16 + 8 + 4

(* What is in a key file (or not: <<>>) *)
ParseKey(b, p) ==
  IF Len(b) = KeyHeaderSize + 3 * p.n /\ SubSeq(b, 1, 24) = KeyMagic \o Params(p)
  THEN <<[p |-> p, seq |-> SubSeq(b, 25, 32), bor |-> SubSeq(b, 33, 36), secret |-> SubSeq(b, 37, Len(b))]>>
  ELSE <<>>

-----------------------------------------------------------------------------
(* The cache *)
(* (layout of the slots: FileFormat) *)
CacheHeader(f, al, count) ==
  IF f = 0 THEN CacheMagic0 \o U32(count) \o <<0>> \o U32(0)
           ELSE CacheMagic1 \o U32(count) \o <<1>> \o U32(al)
(* An alignment of 0 means 4096. *)
Aligned(al) == IF al = 0 THEN 4096 ELSE al

CacheFile(p, f, al, slots) ==
  [size |-> Slot(p, Aligned(al), Len(slots)),
   parts |-> <<[off |-> 0, b |-> CacheHeader(f, al, Len(slots))]>>
             \o [i \in 1 .. Len(slots) |->
                   [off |-> Slot(p, Aligned(al), i - 1),
                    b |-> <<slots[i].allocated>> \o slots[i].addr \o slots[i].mark]]]

(* A cache header: its format, alignment, and number of slots, or <<>>      *)
ParseHeader(b) ==
  IF Len(b) < 17 \/ b[9] > 127 THEN <<>>
  ELSE LET m == SubSeq(b, 1, 8)
           n == FromU32(SubSeq(b, 9, 12))
       IN IF m = CacheMagic0 /\ b[13] = 0 THEN <<[f |-> 0, al |-> 4096, n |-> n]>>
          ELSE IF m = CacheMagic1 /\ b[13] = 1 /\ b[14] < 128 /\ FromU32(SubSeq(b, 14, 17)) % 4096 = 0
               THEN <<[f |-> 1, al |-> Aligned(FromU32(SubSeq(b, 14, 17))), n |-> n]>>
               ELSE <<>>

(* The entries of a cache of which the bytes at multiples of 4096 are known *)
Complete(p, c, h) ==
  /\ h.n <= 1000 /\ h.al <= 1048576
  /\ \A i \in 0 .. h.n - 1 : ToString(Slot(p, h.al, i)) \in DOMAIN c.pages
  /\ c.size >= Slot(p, h.al, h.n) \/ h.n = 0
Allocated(p, c, h) ==
  {i \in 0 .. h.n - 1 : c.pages[ToString(Slot(p, h.al, i))][1] # 0}
Entries(p, c, h) ==
  {SubSeq(c.pages[ToString(Slot(p, h.al, i))], 2, 21) : i \in Allocated(p, c, h)}

(* Does the cache hold these (address with the first bytes of the subtree)? *)
CacheIs(p, c, live) ==
  LET ph == ParseHeader(c.head) IN
    /\ ph # <<>>
    /\ Complete(p, c, ph[1])
    /\ Entries(p, c, ph[1]) = live
    /\ Cardinality(Allocated(p, c, ph[1])) = Cardinality(live)

-----------------------------------------------------------------------------
(* Histories *)
VARIABLES t, i, key, live
vars == <<t, i, key, live>>

Init == t \in 0 .. Len(Histories) /\ i = 0 /\ key = <<>> /\ live = {}

Ev == Histories[t].ev[i + 1]
Zero8 == [k \in 1 .. 8 |-> 0]
Zero4 == [k \in 1 .. 4 |-> 0]
AddrOf(e) == SubSeq(e, 1, 12)

(* (Whether arithmetic on the numbers is right is not for this module: what *)
(* the container was asked for and says itself is in the event.)            *)
Step(e) ==
  CASE e.op = "Reset" -> /\ key' = <<[p |-> e.p, seq |-> Zero8, bor |-> Zero4, secret |-> e.secret]>>
                         /\ live' = {}
    [] e.op = "Record" -> key' = <<[key[1] EXCEPT !.seq = e.seq, !.bor = e.bor]>> /\ UNCHANGED live
    [] e.op = "Write" -> /\ live' = {x \in live : AddrOf(x) # e.addr} \cup {e.addr \o e.mark}
                         /\ UNCHANGED key
    [] e.op = "Drop" -> live' = {x \in live : AddrOf(x) # e.addr} /\ UNCHANGED key
    [] e.op = "ResetCache" -> live' = {} /\ UNCHANGED key
    [] e.op = "Adopt" -> \* files made from a case: see above
         LET k == Cases[e.case] IN
           /\ key' = <<[p |-> k.p, seq |-> k.seq, bor |-> k.bor, secret |-> k.secret]>>
           /\ live' = {k.slots[x].addr \o k.slots[x].mark : x \in {y \in 1 .. Len(k.slots) : k.slots[y].allocated = 1}}
    [] e.op = "Reopen" -> UNCHANGED <<key, live>>

Next ==
  /\ t > 0 /\ i < Len(Histories[t].ev)
  /\ i' = i + 1 /\ UNCHANGED t
  /\ Step(Ev)
  /\ ParseKey(Ev.key, key'[1].p) = key'
  /\ CacheIs(key'[1].p, Ev.cache, live')
Spec == Init /\ [][Next]_vars

Told == IF t = 0 THEN \A k \in 1 .. Len(Cases) :
                        LET x == Cases[k] IN
                          PrintT(ToJson([case |-> k, key |-> KeyFile(x), cache |-> CacheFile(x.p, x.f, x.al, x.slots)]))
        ELSE PrintT(<<"at", t, i>>)

-----------------------------------------------------------------------------
(* Theorems, for the cases and some more parameters *)
Some == {Cases[k] : k \in 1 .. Len(Cases)}
ASSUME \A x \in Some : ParseKey(KeyFile(x), x.p) = <<[p |-> x.p, seq |-> x.seq, bor |-> x.bor, secret |-> x.secret]>>
ASSUME \A x \in Some : Len(KeyFile(x)) = KeyHeaderSize + 3 * x.p.n
ASSUME \A f \in {0, 1}, al \in {0, 4096, 8192, 65536}, n \in {0, 1, 255, 256, 70000} :
         LET h == ParseHeader(CacheHeader(f, al, n)) IN
           h = <<[f |-> f, al |-> IF f = 0 THEN 4096 ELSE Aligned(al), n |-> n]>>
(* Slots are aligned and apart *)
ASSUME \A x \in Some : \A al \in {4096, 8192, 65536} : \A k \in 0 .. 5 :
         /\ Slot(x.p, al, k) % al = 0 /\ Slot(x.p, al, 0) >= 17
         /\ Slot(x.p, al, k) + Entry(x.p) <= Slot(x.p, al, k + 1)
=============================================================================
