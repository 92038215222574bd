-------------------------------- MODULE Xmss --------------------------------
(***************************************************************************)
(* The structure of XMSS and XMSS^MT (RFC 8391, NIST SP 800-208): which    *)
(* hashes of which inputs at which addresses make up public keys and       *)
(* signatures, and how those are laid out in bytes.                        *)
(*                                                                         *)
(* TLC cannot usefully compute SHA-256.  So this module defines everything *)
(* but the hash functions themselves, as data: layouts (sequences of       *)
(* segments), addresses (sequences of eight words, some symbolic),         *)
(* schedules (which node is computed from which) and digit tables.         *)
(* XmssExport.tla prints these for given parameters, the interpreter in    *)
(* /verif/harness/xmssref.go executes them with a standard hash library,   *)
(* and the result is compared to that of the real code byte for byte.      *)
(* XmssThm.tla has TLC check properties of these definitions.              *)
(*                                                                         *)
(* Parameters: a record p with fields                                      *)
(*    func in {"SHA2","SHAKE","SHAKE256"}, n (bytes), h (full height),     *)
(*    d (layers), w (Winternitz parameter), prf in {"RFC","NIST"}          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Supported(p) ==
  /\ p.func \in {"SHA2", "SHAKE", "SHAKE256"}
  /\ p.n \in {16, 24, 32, 64}
  /\ p.w \in {4, 16, 256}
  /\ p.prf \in {"RFC", "NIST"}
  /\ p.h \in 1..63 /\ p.d \in 1..63
  /\ p.h % p.d = 0

TreeHeight(p) == p.h \div p.d

-----------------------------------------------------------------------------
(* Winternitz: RFC 8391, section 3.1.1 *)
LogW(w) == CASE w = 4 -> 2 [] w = 16 -> 4 [] w = 256 -> 8

Len1(n, w) == (8 * n) \div LogW(w)          \* LogW divides 8 n

\* floor(log_w(x)) for x >= 1
RECURSIVE FloorLog(_, _)
FloorLog(x, w) == IF x < w THEN 0 ELSE 1 + FloorLog(x \div w, w)

Len2(n, w) == FloorLog(Len1(n, w) * (w - 1), w) + 1
WotsLen(n, w) == Len1(n, w) + Len2(n, w)

MaxChecksum(n, w) == Len1(n, w) * (w - 1)

\* Number of bits by which the checksum is shifted to the left:
\* 8 - ((len_2 lg w) mod 8) in the RFC, where a multiple of 8 leaves nothing
\* to shift (a shift by 8 would lose the top digit).
ChecksumShift(n, w) == (8 - ((Len2(n, w) * LogW(w)) % 8)) % 8
ChecksumBytes(n, w) == (Len2(n, w) * LogW(w) + 7) \div 8

(* The i'th base-w digit of a byte string: in which byte and how far to    *)
(* shift that byte to the right.                                           *)
Digit(i, w) == LET per == 8 \div LogW(w) IN
  [byte |-> i \div per, shift |-> 8 - LogW(w) * ((i % per) + 1)]

MsgDigits(n, w) == [i \in 1..Len1(n, w) |-> Digit(i - 1, w)]
CsumDigits(n, w) == [i \in 1..Len2(n, w) |-> Digit(i - 1, w)]

\* Evaluation of the above on concrete byte strings (sequences of 0..255).
DigitOf(bytes, dg, w) == (bytes[dg.byte + 1] \div (2 ^ dg.shift)) % w

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* big endian
ToByte(x, k) == [i \in 1..k |-> (x \div (256 ^ (k - i))) % 256]

MsgPart(msg, n, w) == [i \in 1..Len1(n, w) |-> DigitOf(msg, MsgDigits(n, w)[i], w)]
ChecksumOf(digits, w) == Sum([i \in DOMAIN digits |-> (w - 1) - digits[i]])
CsumPart(c, n, w) ==
  LET bytes == ToByte(c * (2 ^ ChecksumShift(n, w)), ChecksumBytes(n, w))
  IN [i \in 1..Len2(n, w) |-> DigitOf(bytes, CsumDigits(n, w)[i], w)]

(* Positions on the chains that sign msg.                                  *)
Positions(msg, n, w) ==
  LET m == MsgPart(msg, n, w) IN m \o CsumPart(ChecksumOf(m, w), n, w)

-----------------------------------------------------------------------------
(* Hash functions: RFC 8391 section 5.1; SP 800-208 section 5              *)
HashAlg(p) ==
  CASE p.func = "SHA2" /\ p.n <= 32 -> "sha256"
    [] p.func = "SHA2" /\ p.n > 32 -> "sha512"
    [] p.func = "SHAKE" /\ p.n <= 32 -> "shake128"
    [] p.func = "SHAKE" /\ p.n > 32 -> "shake256"
    [] p.func = "SHAKE256" -> "shake256"

PrefixLen(p) == IF p.prf = "NIST" THEN 4 ELSE p.n

Num(v, len) == [t |-> "int", v |-> v, len |-> len]      \* toByte(v, len)
Arg(name, len) == [t |-> "arg", name |-> name, len |-> len]
Var(name, len) == [t |-> "var", name |-> name, len |-> len]  \* toByte of a number
Adrs == [t |-> "adrs", len |-> 32]
Rest(name) == [t |-> "rest", name |-> name, len |-> 0]

FIn(p) == <<Num(0, PrefixLen(p)), Arg("key", p.n), Arg("m", p.n)>>
HIn(p) == <<Num(1, PrefixLen(p)), Arg("key", p.n), Arg("left", p.n), Arg("right", p.n)>>
HMsgIn(p) == <<Num(2, PrefixLen(p)), Arg("r", p.n), Arg("root", p.n), Var("idx", p.n), Rest("msg")>>
PrfAdrsIn(p) == <<Num(3, PrefixLen(p)), Arg("key", p.n), Adrs>>
PrfIdxIn(p) == <<Num(3, PrefixLen(p)), Arg("key", p.n), Var("idx", 32)>>
PrfKeygenIn(p) == <<Num(4, PrefixLen(p)), Arg("skSeed", p.n), Arg("pubSeed", p.n), Adrs>>

-----------------------------------------------------------------------------
(* Addresses: RFC 8391, section 2.5.  Symbolic words are strings; the tree *)
(* takes two words.                                                        *)
S(name) == [sym |-> name]
C(val) == [val |-> val]
OtsAdrs == <<S("layer"), S("treeHi"), S("treeLo"), C(0), S("leaf"), S("chain"), S("step"), S("km")>>
LTreeAdrs == <<S("layer"), S("treeHi"), S("treeLo"), C(1), S("leaf"), S("height"), S("index"), S("km")>>
TreeAdrs == <<S("layer"), S("treeHi"), S("treeLo"), C(2), C(0), S("height"), S("index"), S("km")>>

-----------------------------------------------------------------------------
(* Schedules *)

(* L-tree (Algorithm 8): nodes are named by position; each step overwrites *)
(* position out with the hash of positions left and right, or copies (left *)
(* = right) when a node is left over.                                      *)
RECURSIVE LTreeFrom(_, _)
LTreeFrom(l, height) ==
  IF l <= 1 THEN <<>>
  ELSE [i \in 1..(l \div 2) |->
          [op |-> "hash", height |-> height, index |-> i - 1,
           left |-> 2 * (i - 1), right |-> 2 * (i - 1) + 1, out |-> i - 1]]
       \o (IF l % 2 = 1
           THEN <<[op |-> "copy", height |-> height, index |-> 0,
                   left |-> l - 1, right |-> l - 1, out |-> l \div 2]>>
           ELSE <<>>)
       \o LTreeFrom((l + 1) \div 2, height + 1)

LTree(p) == LTreeFrom(WotsLen(p.n, p.w), 0)

(* Hash tree (Algorithm 9/10): node i at height k >= 1 is the hash of      *)
(* nodes 2i and 2i+1 at height k-1, with address words height k-1, index i.*)
TreeNode(k, i) == [height |-> k - 1, index |-> i, left |-> 2 * i, right |-> 2 * i + 1]

(* Position of number idx: on layer l, in which tree and at which leaf, as *)
(* bit fields of idx (Algorithms 15 to 17).                                *)
Path(p) == [l \in 1..p.d |->
  [layer |-> l - 1, treeShift |-> l * TreeHeight(p),
   leafShift |-> (l - 1) * TreeHeight(p), leafBits |-> TreeHeight(p)]]

(* Authentication path of a leaf: at height k the sibling of the k'th      *)
(* ancestor.                                                               *)
AuthShift(k) == k
\* (leaf >> k) xor 1

-----------------------------------------------------------------------------
(* Layouts *)
IndexBytes(p) == IF p.d = 1 THEN 4 ELSE (p.h + 7) \div 8

SigSegments(p) ==
  <<[name |-> "params", len |-> 4], [name |-> "idx", len |-> IndexBytes(p)],
    [name |-> "r", len |-> p.n]>>
  \o FlattenSeq([l \in 1..p.d |->
       <<[name |-> "ots", layer |-> l - 1, len |-> WotsLen(p.n, p.w) * p.n],
         [name |-> "auth", layer |-> l - 1, len |-> TreeHeight(p) * p.n]>>])

RECURSIVE SumLen(_)
SumLen(s) == IF s = <<>> THEN 0 ELSE Head(s).len + SumLen(Tail(s))

SigSize(p) == SumLen(SigSegments(p)) - 4  \* as reported: without the params
PkSegments(p) == <<[name |-> "params", len |-> 4], [name |-> "root", len |-> p.n],
                   [name |-> "pubSeed", len |-> p.n]>>

(* The 32 bits of encoded parameters, from the most significant bit.       *)
HeaderFields == <<
  [name |-> "magic", bits |-> 8], [name |-> "version", bits |-> 3],
  [name |-> "prf", bits |-> 1], [name |-> "n", bits |-> 4],
  [name |-> "func", bits |-> 2], [name |-> "w", bits |-> 2],
  [name |-> "h", bits |-> 6], [name |-> "d", bits |-> 6]>>

FuncCode(f) == CASE f = "SHA2" -> 0 [] f = "SHAKE" -> 1 [] f = "SHAKE256" -> 2
WCode(w) == CASE w = 4 -> 0 [] w = 16 -> 1 [] w = 256 -> 2
PrfCode(x) == IF x = "NIST" THEN 1 ELSE 0

HeaderValues(p) == [magic |-> 234, version |-> 0, prf |-> PrfCode(p.prf),
  n |-> (p.n \div 8) - 1, func |-> FuncCode(p.func), w |-> WCode(p.w),
  h |-> p.h, d |-> p.d]

\* (TLC's integers have 31 bits: as four bytes)
HeaderBytes(p) == LET v == HeaderValues(p) IN
  << v.magic,
     v.version * 32 + v.prf * 16 + v.n,
     v.func * 64 + v.w * 16 + (v.h \div 4),
     (v.h % 4) * 64 + v.d >>

-----------------------------------------------------------------------------
(* Names: XMSS-F_h_n[_wW][_PRF] and XMSSMT-F_h/d_n[_wW][_PRF]; w16 is left *)
(* out, as is the PRF construction where it is the customary one: NIST for *)
(* n = 24 and RFC otherwise.                                               *)
DefaultPrf(n) == IF n = 24 THEN "NIST" ELSE "RFC"

Template(p) ==
  [p |-> p, hash |-> HashAlg(p), treeHeight |-> TreeHeight(p),
   len1 |-> Len1(p.n, p.w), len2 |-> Len2(p.n, p.w), len |-> WotsLen(p.n, p.w),
   msgDigits |-> MsgDigits(p.n, p.w), csumDigits |-> CsumDigits(p.n, p.w),
   csumShift |-> ChecksumShift(p.n, p.w), csumBytes |-> ChecksumBytes(p.n, p.w),
   f |-> FIn(p), hh |-> HIn(p), hmsg |-> HMsgIn(p), prfAdrs |-> PrfAdrsIn(p),
   prfIdx |-> PrfIdxIn(p), prfKeygen |-> PrfKeygenIn(p),
   otsAdrs |-> OtsAdrs, lTreeAdrs |-> LTreeAdrs, treeAdrs |-> TreeAdrs,
   lTree |-> LTree(p), path |-> Path(p),
   idxBytes |-> IndexBytes(p), sig |-> SigSegments(p), pk |-> PkSegments(p),
   sigSize |-> SigSize(p), header |-> HeaderBytes(p)]
=============================================================================
