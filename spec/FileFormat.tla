----------------------------- MODULE FileFormat -----------------------------
(* Layout of the cache: slots of subtrees of the parameters p, aligned.     *)
EXTENDS Integers

RECURSIVE Lg(_), Digits(_, _)
Lg(x) == IF x <= 1 THEN 0 ELSE 1 + Lg(x \div 2)
Digits(x, w) == IF x = 0 THEN 0 ELSE 1 + Digits(x \div w, w)
WotsLen(p) == LET l == (8 * p.n) \div Lg(p.w) IN l + Digits(l * (p.w - 1), p.w)

(* An entry: allocated or not, address, the nodes of the subtree, the       *)
(* signature of its root, checksum.                                         *)
EntryHeader == 1 + 4 + 8
Entry(p) == EntryHeader + (2 ^ (p.h \div p.d + 1) - 1) * p.n + WotsLen(p) * p.n + 8
Stride(p, al) == ((Entry(p) - 1) \div al + 1) * al
Slot(p, al, i) == al + i * Stride(p, al)
=============================================================================
