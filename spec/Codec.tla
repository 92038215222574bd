-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Encodings, names and identifiers of parameter sets, and which bytes are *)
(* acceptable as what.  Builds on the layouts of Xmss.tla.                 *)
(*                                                                         *)
(* TLC evaluates the theorems at the end and prints the tables which the   *)
(* harness compares with the code for every 32 bit header with the right   *)
(* magic, every supported parameter set and every name of the grammar.     *)
(***************************************************************************)
EXTENDS Xmss, TLC, Json, FiniteSetsExt

Funcs == <<"SHA2", "SHAKE", "SHAKE256">>
Prfs == <<"RFC", "NIST">>
Ns == {16, 24, 32, 64}
Ws == {4, 16, 256}

-----------------------------------------------------------------------------
(* The header: what each field may contain, and what it means.             *)
(* "n" gives multiples of eight only some of which are supported.          *)
FieldTable == [
  magic   |-> {[code |-> 234, val |-> 0]},
  version |-> {[code |-> 0, val |-> 0]},
  prf     |-> {[code |-> i - 1, val |-> i - 1] : i \in 1..2},
  n       |-> {[code |-> c, val |-> 8 * (c + 1)] : c \in 0..15},
  func    |-> {[code |-> i - 1, val |-> i - 1] : i \in 1..3},
  w       |-> {[code |-> 0, val |-> 4], [code |-> 1, val |-> 16], [code |-> 2, val |-> 256]},
  h       |-> {[code |-> c, val |-> c] : c \in 0..63},
  d       |-> {[code |-> c, val |-> c] : c \in 0..63} ]

(* Shapes of the hypertree.  Subtrees higher than 20 exist in no published *)
(* instance and take gigabytes: an implementation may refuse them.         *)
ShapeOk(h, d) == h \in 1..63 /\ d \in 1..63 /\ h % d = 0
ShapeMay(h, d) == ShapeOk(h, d) /\ h \div d > 20
ShapeMust(h, d) == ShapeOk(h, d) /\ h \div d <= 20

Shapes == {s \in (1..63) \X (1..63) : ShapeMust(s[1], s[2])}
ShapesMay == {s \in (1..63) \X (1..63) : ShapeMay(s[1], s[2])}

P(f, n, h, d, w, prf) == [func |-> f, n |-> n, h |-> h, d |-> d, w |-> w, prf |-> prf]

-----------------------------------------------------------------------------
(* Names *)
Height(p) == IF p.d = 1 THEN ToString(p.h) ELSE ToString(p.h) \o "/" \o ToString(p.d)
Name(p) ==
  (IF p.d = 1 THEN "XMSS-" ELSE "XMSSMT-") \o p.func \o "_" \o Height(p) \o "_" \o ToString(8 * p.n)
  \o (IF p.w # 16 THEN "_w" \o ToString(p.w) ELSE "")
  \o (IF p.prf # DefaultPrf(p.n) THEN "_" \o p.prf ELSE "")

\* Also understood: what is left out by default, spelled out, in either order.
Aliases(p) ==
  LET base == (IF p.d = 1 THEN "XMSS-" ELSE "XMSSMT-") \o p.func \o "_" \o Height(p) \o "_" \o ToString(8 * p.n)
      w == "_w" \o ToString(p.w)
      f == "_" \o p.prf
  IN {base \o w \o f, base \o f \o w}
     \cup (IF p.w = 16 THEN {base \o f} ELSE {})
     \cup (IF p.prf = DefaultPrf(p.n) THEN {base \o w} ELSE {})

-----------------------------------------------------------------------------
(* Registered instances: blocks of consecutive OIDs.                       *)
MtShapes == <<<<20, 2>>, <<20, 4>>, <<40, 2>>, <<40, 4>>, <<40, 8>>, <<60, 3>>, <<60, 6>>, <<60, 12>>>>
Shapes1 == <<<<10, 1>>, <<16, 1>>, <<20, 1>>>>
Blocks == <<  \* func, n, from
  <<"SHA2", 32, "RFC">>, <<"SHA2", 64, "RFC">>, <<"SHAKE", 32, "RFC">>, <<"SHAKE", 64, "RFC">>,
  <<"SHA2", 24, "NIST">>, <<"SHAKE256", 32, "NIST">>, <<"SHAKE256", 24, "NIST">> >>
RegOf(mt, shapes) ==
  [i \in 1..(Len(Blocks) * Len(shapes)) |->
     LET b == Blocks[((i - 1) \div Len(shapes)) + 1]
         s == shapes[((i - 1) % Len(shapes)) + 1]
         p == P(b[1], b[2], s[1], s[2], 16, DefaultPrf(b[2]))
     IN [mt |-> mt, oid |-> i, from |-> b[3], name |-> Name(p), p |-> p]]
Registry == RegOf(TRUE, MtShapes) \o RegOf(FALSE, Shapes1)

-----------------------------------------------------------------------------
(* A grammar of names with faults.  Every component is good (then it has a *)
(* meaning) or bad, and one bad component makes the name bad.              *)
G(s, v) == [s |-> s, ok |-> TRUE, v |-> v]
B(s) == [s |-> s, ok |-> FALSE, v |-> 0]
Algs == {G("XMSS-", FALSE), G("XMSSMT-", TRUE), B("XMSS"), B("XMSSMT_"), B("-"), B(""), B("xmss-"), B("XMSSMTT-"), B("XMSSSMT-")}
Hashes == {G("SHA2", "SHA2"), G("SHAKE", "SHAKE"), G("SHAKE256", "SHAKE256"), B("SHA3"), B("SHAKE128"), B(""), B("shake"), B("SHA")}
Heights == {G("20", <<20, 0>>), G("20/2", <<20, 2>>), G("6/3", <<6, 3>>), G("63/63", <<63, 63>>), G("5", <<5, 0>>),
            B("0"), B("0/1"), B("0/0"), B("20/0"), B("7/2"), B("64"), B("64/4"), B("-20/2"), B("20/-2"), B("20/"), B("/2"), B(""), B("x"), B("20/x"),
            B("20/2/2"), B("2/4"), B("4294967316/2"), B("20/4294967298"), B("99999999999999999999/2"), B("1e1"), B("18446744073709551636"), B("63/64"), B("128/64")}
Sizes == {G("128", 16), G("192", 24), G("256", 32), G("512", 64),
          B("0"), B("8"), B("129"), B("257"), B("320"), B("384"), B("1024"), B("-256"), B(""), B("x"), B("34359738624"), B("18446744073709551872")}
Winternitz == {G("", 16), G("_w4", 4), G("_w16", 16), G("_w256", 256),
      B("_w"), B("_w0"), B("_w1"), B("_w2"), B("_w8"), B("_w17"), B("_w32"), B("_w65540"), B("_w65552"), B("_w-16"), B("_W16"), B("_16"), B("_wx"), B("_")}
PrfNames == {G("", "default"), G("_RFC", "RFC"), G("_NIST", "NIST"), B("_nist"), B("_RFC_NIST_RFC"), B("_X"), B("_NISTX"), B("_"), B("_RFC_")}

\* The name is composed of the given components; at most Faults are bad.
Bad(c) == IF c.ok THEN 0 ELSE 1
Goods(s) == {c \in s : c.ok}
Bads(s) == {c \in s : ~c.ok}
Compose(a, f, h, n, w, x) ==
  [name |-> a.s \o f.s \o "_" \o h.s \o "_" \o n.s \o w.s \o x.s,
   ok |-> /\ a.ok /\ f.ok /\ h.ok /\ n.ok /\ w.ok /\ x.ok
          /\ a.v = (h.v[2] # 0),
   p |-> IF a.ok /\ f.ok /\ h.ok /\ n.ok /\ w.ok /\ x.ok
         THEN P(f.v, n.v, h.v[1], IF a.v THEN h.v[2] ELSE 1, w.v, IF x.v = "default" THEN DefaultPrf(n.v) ELSE x.v)
         ELSE [none |-> 0]]

Good0 == CHOOSE c \in Goods(Winternitz) : c.s = ""
Prf0 == CHOOSE c \in Goods(PrfNames) : c.s = ""
NameCases ==
  LET gs == Goods(Sizes) gh == Goods(Heights) gf == Goods(Hashes) ga == Goods(Algs) gw == Goods(Winternitz) gx == Goods(PrfNames) IN
  UNION {
    {Compose(a, f, h, n, w, x) : a \in ga, f \in gf, h \in gh, n \in gs, w \in gw, x \in gx},
    {Compose(a, f, h, n, Good0, Prf0) : a \in Bads(Algs), f \in gf, h \in gh, n \in gs},
    {Compose(a, f, h, n, Good0, Prf0) : a \in ga, f \in Bads(Hashes), h \in gh, n \in gs},
    {Compose(a, f, h, n, w, Prf0) : a \in ga, f \in gf, h \in Bads(Heights), n \in gs, w \in gw},
    {Compose(a, f, h, n, w, Prf0) : a \in ga, f \in gf, h \in gh, n \in Bads(Sizes), w \in gw},
    {Compose(a, f, h, n, w, x) : a \in ga, f \in gf, h \in gh, n \in {c \in gs : c.v = 32}, w \in Bads(Winternitz), x \in gx},
    {Compose(a, f, h, n, w, x) : a \in ga, f \in gf, h \in gh, n \in {c \in gs : c.v # 32}, w \in gw, x \in Bads(PrfNames)} }

-----------------------------------------------------------------------------
(* Theorems *)
RECURSIVE SumBits(_)
SumBits(s) == IF s = <<>> THEN 0 ELSE Head(s).bits + SumBits(Tail(s))
AllShapes == Shapes \cup ShapesMay
ASSUME NamesInjective ==
  LET ps == {P(f, n, s[1], s[2], w, x) : f \in {Funcs[i] : i \in 1..3}, n \in Ns, s \in AllShapes, w \in Ws, x \in {"RFC", "NIST"}}
      some == {p \in ps : p.h \in {1, 2, 11, 20, 60, 63}}
      all(p) == Aliases(p) \cup {Name(p)}
  IN /\ Cardinality({Name(p) : p \in some}) = Cardinality(some)
     \* no name denotes two parameter sets
     /\ Cardinality(UNION {all(p) : p \in some})
          = FoldSet(LAMBDA p, acc : acc + Cardinality(all(p)), 0, some)
ASSUME RegistryInjective ==
  /\ Cardinality({Registry[i].name : i \in DOMAIN Registry}) = Len(Registry)
  /\ Cardinality({<<Registry[i].mt, Registry[i].oid>> : i \in DOMAIN Registry}) = Len(Registry)
  /\ Cardinality({Registry[i].p : i \in DOMAIN Registry}) = Len(Registry)
  /\ Len(Registry) = 56 + 21
ASSUME HeaderFieldsFill32 == SumBits(HeaderFields) = 32
ASSUME GoodNamesDenoteOne ==
  LET good == {c \in NameCases : c.ok} IN
    \A c \in good : c.name \in Aliases(c.p) \cup {Name(c.p)}

(* Export *)
ASSUME \A f \in DOMAIN FieldTable : PrintT(ToJson([k |-> "field", name |-> f, table |-> FieldTable[f]]))
ASSUME PrintT(ToJson([k |-> "layout", fields |-> HeaderFields]))
ASSUME PrintT(ToJson([k |-> "shapes", must |-> Shapes, may |-> ShapesMay]))
ASSUME \A n \in Ns, w \in Ws : \A s \in Shapes :
   LET p == P("SHA2", n, s[1], s[2], w, "RFC") IN
   PrintT(ToJson([k |-> "size", n |-> n, w |-> w, h |-> s[1], d |-> s[2], sig |-> SigSize(p), idx |-> IndexBytes(p)]))
ASSUME \A s \in Shapes : \A i \in 1..3, n \in Ns, w \in Ws, x \in {"RFC", "NIST"} :
   LET p == P(Funcs[i], n, s[1], s[2], w, x) IN
   PrintT(ToJson([k |-> "name", p |-> p, name |-> Name(p), aliases |-> IF s[1] % 7 = 0 THEN Aliases(p) ELSE {}, header |-> HeaderBytes(p)]))
ASSUME \A i \in DOMAIN Registry : PrintT(ToJson([k |-> "reg", e |-> Registry[i]]))
ASSUME \A c \in NameCases : PrintT(ToJson([k |-> "case", c |-> c]))
=============================================================================
