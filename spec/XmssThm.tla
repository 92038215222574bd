------------------------------ MODULE XmssThm ------------------------------
(***************************************************************************)
(* Properties of the definitions of Xmss.tla, checked by TLC by evaluating *)
(* them completely for the stated parameters.                              *)
(***************************************************************************)
EXTENDS Xmss, TLC

Ns == {16, 24, 32, 64}
Ws == {4, 16, 256}

\* The number of checksum digits suffices for every attainable checksum, and
\* they determine it (C14).
RECURSIVE Value(_, _)
Value(digits, w) == IF digits = <<>> THEN 0
                    ELSE Value(SubSeq(digits, 1, Len(digits) - 1), w) * w + digits[Len(digits)]

ASSUME ChecksumComplete ==
  \A n \in Ns, w \in Ws : \A c \in 0..MaxChecksum(n, w) :
     Value(CsumPart(c, n, w), w) = c

ASSUME ChecksumFits ==
  \A n \in Ns, w \in Ws :
     /\ MaxChecksum(n, w) < w ^ Len2(n, w)
     /\ Len2(n, w) = 1 \/ MaxChecksum(n, w) >= w ^ (Len2(n, w) - 1)
     /\ ChecksumBytes(n, w) * 8 = Len2(n, w) * LogW(w) + ChecksumShift(n, w)

\* No digest dominates another (C14): brute force for messages of one byte,
\* (with the same definitions).
Digests1 == {<<a>> : a \in 0..255}
Smaller(p, q) == \E i \in DOMAIN p : p[i] < q[i]
PosOf(w) == [m \in Digests1 |-> Positions(m, 1, w)]
ASSUME NoDomination ==
  \A w \in Ws : LET pos == PosOf(w) IN
    \A a, b \in Digests1 : a # b => Smaller(pos[a], pos[b])

\* For longer digests: the digit sum of the message part and the value of the
\* checksum part are complementary, so that if no message digit is smaller, the
\* checksum is smaller, and then so is some digit of it (see ChecksumComplete
\* and the next theorem).
ASSUME SmallerValueHasSmallerDigit ==
  \A w \in {4, 16} : \A c1, c2 \in 0..(w ^ 2 - 1) :
    c1 < c2 => \E i \in 1..2 :
      ((c1 \div (w ^ (2 - i))) % w) < ((c2 \div (w ^ (2 - i))) % w)

\* The L-tree uses every node exactly once and ends in one node.
RunLTree(steps, live0) ==  \* number of leaves under each position
  FoldLeft(LAMBDA live, s :
      IF s.op = "copy"
      THEN [i \in DOMAIN live |-> IF i = s.out + 1 THEN live[s.left + 1]
                                   ELSE IF i = s.left + 1 THEN 0 ELSE live[i]]
      ELSE [i \in DOMAIN live |->
              IF i = s.out + 1 THEN live[s.left + 1] + live[s.right + 1]
              ELSE IF i \in {s.left + 1, s.right + 1} THEN 0 ELSE live[i]],
    live0, steps)
ASSUME LTreeOk ==
  \A n \in Ns, w \in Ws :
    LET l == WotsLen(n, w)
        res == RunLTree(LTreeFrom(l, 0), [i \in 1..l |-> 1])
    IN /\ res[1] = l
       /\ \A i \in 2..l : res[i] = 0

\* The addresses of all hashes in the life of a key are distinct.
AdrsOf(tmpl, env) == [i \in 1..8 |-> IF "sym" \in DOMAIN tmpl[i] THEN env[tmpl[i].sym] ELSE tmpl[i].val]
Mini == [func |-> "SHA2", n |-> 16, h |-> 4, d |-> 2, w |-> 4, prf |-> "RFC"]
EnvOts == [layer : 0..1, treeHi : {0}, treeLo : 0..3, leaf : 0..3, chain : 0..5, step : 0..2, km : 0..1]
EnvLT  == {[layer |-> l, treeHi |-> 0, treeLo |-> t, leaf |-> f, height |-> s.height, index |-> s.index, km |-> k] :
            l \in 0..1, t \in 0..3, f \in 0..3, k \in 0..2,
            s \in {x \in {LTreeFrom(6, 0)[i] : i \in 1..Len(LTreeFrom(6, 0))} : x.op = "hash"}}
EnvT == {[layer |-> l, treeHi |-> 0, treeLo |-> t, height |-> TreeNode(n[1], n[2]).height, index |-> n[2], km |-> k] :
            l \in 0..1, t \in 0..3, k \in 0..2, n \in {<<1, 0>>, <<1, 1>>, <<2, 0>>}}
ASSUME AddressesDistinct ==
  LET a == {<<OtsAdrs, e>> : e \in EnvOts} \cup {<<LTreeAdrs, e>> : e \in EnvLT} \cup {<<TreeAdrs, e>> : e \in EnvT}
  IN Cardinality({AdrsOf(x[1], x[2]) : x \in a}) = Cardinality(EnvOts) + Cardinality(EnvLT) + Cardinality(EnvT)

\* Sizes as published for some instances (RFC 8391 tables 2-4; SP 800-208).
I(f, n, h, d) == [func |-> f, n |-> n, h |-> h, d |-> d, w |-> 16, prf |-> "RFC"]
ASSUME PublishedSizes ==
  /\ WotsLen(32, 16) = 67 /\ WotsLen(64, 16) = 131 /\ WotsLen(24, 16) = 51
  /\ SigSize(I("SHA2", 32, 10, 1)) = 2500 /\ SigSize(I("SHA2", 32, 16, 1)) = 2692
  /\ SigSize(I("SHA2", 32, 20, 1)) = 2820 /\ SigSize(I("SHA2", 64, 10, 1)) = 9092
  /\ SigSize(I("SHA2", 64, 16, 1)) = 9476 /\ SigSize(I("SHA2", 64, 20, 1)) = 9732
  /\ SigSize(I("SHA2", 32, 20, 2)) = 4963 /\ SigSize(I("SHA2", 32, 20, 4)) = 9251
  /\ SigSize(I("SHA2", 32, 40, 2)) = 5605 /\ SigSize(I("SHA2", 32, 40, 4)) = 9893
  /\ SigSize(I("SHA2", 32, 40, 8)) = 18469 /\ SigSize(I("SHA2", 32, 60, 3)) = 8392
  /\ SigSize(I("SHA2", 32, 60, 6)) = 14824 /\ SigSize(I("SHA2", 32, 60, 12)) = 27688
  /\ SigSize(I("SHA2", 64, 20, 2)) = 18115 /\ SigSize(I("SHA2", 64, 60, 12)) = 104520

\* Distinct parameters have distinct encodings, which fit their fields (C11).
ASSUME HeaderInjective ==
  LET ps == [func : {"SHA2", "SHAKE", "SHAKE256"}, n : Ns, h : {1, 2, 10, 20, 40, 60, 63}, d : {1, 2, 3, 20, 63}, w : Ws, prf : {"RFC", "NIST"}]
  IN /\ Cardinality({HeaderBytes(p) : p \in ps}) = Cardinality(ps)
     /\ \A p \in ps : \A i \in 1..4 : HeaderBytes(p)[i] \in 0..255
============================================================================
