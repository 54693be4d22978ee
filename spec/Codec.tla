-------------------------------- MODULE Codec --------------------------------
(* Numbers, keys and nodes as bytes, whatever their size.  A number is the sequence of its  *)
(* limbs, 16 bits each, the lowest first (four limbs: 64 bits); numbers are the same if they *)
(* differ only in zero limbs at the end.                                                     *)
(*   varint: groups of 7 bits, the lowest first, one a byte; all bytes but the last have bit 7 *)
(*     set.  64 bits take at most 10 bytes, the last of which is 0 or 1.                        *)
(*   order of keys: the values' bytes (unsigned, a prefix first), then offset, then length.      *)
(*   tree node, vector node, metadata: as in Format.                                            *)
EXTENDS Integers, Sequences, FiniteSets
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64
             [] k = 7 -> 128 [] k = 8 -> 256 [] k = 9 -> 512 [] k = 10 -> 1024 [] k = 11 -> 2048 [] k = 12 -> 4096
             [] k = 13 -> 8192 [] k = 14 -> 16384 [] k = 15 -> 32768
Mod(a, b) == a - b * (a \div b)
Limb(x, j) == IF j <= Len(x) THEN x[j] ELSE 0
\* bit p (from 0)
Bit(x, p) == Mod(Limb(x, 1 + p \div 16) \div Pow2(Mod(p, 16)), 2)
Group(x, k) ==
    Bit(x, 7 * k) + 2 * Bit(x, 7 * k + 1) + 4 * Bit(x, 7 * k + 2) + 8 * Bit(x, 7 * k + 3) + 16 * Bit(x, 7 * k + 4)
        + 32 * Bit(x, 7 * k + 5) + 64 * Bit(x, 7 * k + 6)
\* four limbs, and the comparison of numbers
Norm(x) == [j \in 1..4 |-> Limb(x, j)]
Same(x, y) == Norm(x) = Norm(y)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, j) ==
    IF j = 0 THEN 0 ELSE IF Limb(x, j) < Limb(y, j) THEN -1 ELSE IF Limb(x, j) > Limb(y, j) THEN 1 ELSE CmpFrom(x, y, j - 1)
CmpNum(x, y) == CmpFrom(x, y, 4)
\* little endian, k bytes
LEBytes(x, k) == [i \in 1..k |-> LET b == Limb(x, 1 + (i - 1) \div 2) IN IF Mod(i, 2) = 1 THEN Mod(b, 256) ELSE b \div 256]

\* -- varints ---------------------------------------------------------------------
\* how many groups: up to the last one that is not 0
Groups(x) == LET ks == {k \in 1..9 : Group(x, k) # 0} IN IF ks = {} THEN 1 ELSE 1 + CHOOSE k \in ks : \A i \in ks : i <= k
Enc(x) == LET n == Groups(x) IN [i \in 1..n |-> Group(x, i - 1) + (IF i < n THEN 128 ELSE 0)]
ByteOf(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* the groups of a number back to limbs
BitOfGroups(gs, p) == IF 1 + p \div 7 > Len(gs) THEN 0 ELSE Mod(gs[1 + p \div 7] \div Pow2(Mod(p, 7)), 2)
LimbOfGroups(gs, j) ==
    LET b(i) == BitOfGroups(gs, 16 * (j - 1) + i) * Pow2(i)
    IN b(0) + b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8) + b(9) + b(10) + b(11) + b(12) + b(13) + b(14) + b(15)
RECURSIVE LastOf(_, _, _)
\* the index of the byte that ends the number starting at i; 0: there is none, or it has more than 64 bits
LastOf(b, i, d) ==
    IF d = 10 \/ i > Len(b) THEN 0
    ELSE IF b[i] < 128 THEN (IF d = 9 /\ b[i] > 1 THEN 0 ELSE i)
    ELSE LastOf(b, i + 1, d + 1)
NoNumber == [ok |-> FALSE, x |-> <<0, 0, 0, 0>>, next |-> 0]
\* the number starting at i, and where it ends
Dec(b, i) ==
    LET e == LastOf(b, i, 0) IN
    IF e = 0 THEN NoNumber
    ELSE LET gs == [k \in 1..(e - i + 1) |-> Mod(b[i + k - 1], 128)]
         IN [ok |-> TRUE, x |-> [j \in 1..4 |-> LimbOfGroups(gs, j)], next |-> e + 1]
\* how many bits from the lowest to the highest that is set: a double holds the number exactly if at most 53
Span(x) ==
    LET ps == {p \in 0..63 : Bit(x, p) = 1}
    IN IF ps = {} THEN 0 ELSE 1 + (CHOOSE p \in ps : \A q \in ps : q <= p) - (CHOOSE p \in ps : \A q \in ps : q >= p)
Exact(x) == Span(x) <= 53

\* -- the order of keys -------------------------------------------------------------
RECURSIVE CmpBytesFrom(_, _, _)
CmpBytesFrom(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE IF i > Len(a) THEN -1
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpBytesFrom(a, b, i + 1)
CmpBytes(a, b) == CmpBytesFrom(a, b, 1)
\* keys: [o |-> offset, n |-> length, v |-> bytes]
CmpKeys(a, b) ==
    LET v == CmpBytes(a.v, b.v)
        o == CmpNum(a.o, b.o)
    IN IF v # 0 THEN v ELSE IF o # 0 THEN o ELSE CmpNum(a.n, b.n)
SameKey(a, b) == a.v = b.v /\ Same(a.o, b.o) /\ Same(a.n, b.n)

\* -- nodes ---------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
\* the number of keys, negative for a leaf
Count(k, leaf) == LEBytes(IF leaf THEN <<65536 - k, 65535>> ELSE <<k, 0>>, 4)
EncPair(p) == Enc(p.o) \o Enc(p.n)
\* a tree's node: [leaf, ks: its keys, rs: a leaf's records [o, n], cs: an inner node's children]; w: the width
EncNode(nd, w) ==
    Count(Len(nd.ks), nd.leaf)
        \o Flat([i \in 1..Len(nd.ks) |-> EncPair(nd.ks[i]) \o (IF w = 0 THEN << >> ELSE nd.ks[i].v)])
        \o (IF nd.leaf THEN Flat([i \in 1..Len(nd.rs) |-> EncPair(nd.rs[i])]) ELSE Flat([i \in 1..Len(nd.cs) |-> Enc(nd.cs[i])]))
\* a vector node: [leaf, ids: [o, n, x], cs, dim, vs: the vectors' bytes]
EncVNode(nd) ==
    Count(Len(nd.ids), nd.leaf) \o Flat([i \in 1..Len(nd.ids) |-> EncPair(nd.ids[i]) \o Enc(nd.ids[i].x)])
        \o (IF nd.leaf THEN << >> ELSE Flat([i \in 1..Len(nd.cs) |-> Enc(nd.cs[i])])) \o Enc(nd.dim) \o Flat(nd.vs)
\* the metadata of a file: [ver, fmt, off, entries]; of an index: [t, w, name, total]
EncFileMeta(m) == <<m.ver, m.fmt>> \o LEBytes(m.off, 8) \o Enc(m.entries)
EncIndexMeta(m) == LEBytes(<<m.t>>, 2) \o LEBytes(<<m.w>>, 2) \o LEBytes(<<Len(m.name)>>, 2) \o m.name \o Enc(m.total)
=============================================================================
