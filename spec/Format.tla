------------------------------- MODULE Format -------------------------------
(* The bytes of an index file, version 1: how they are read.  A file is a sequence of     *)
(* pages of 4096 bytes, a page here the sequence of its bytes without the zeros it ends    *)
(* with.  All numbers are little endian.                                                   *)
(*   page 0: the offsets of the free pages, 8 bytes each, up to the first 0.                *)
(*   page 1: the first meta page; a meta page is the offset of the next one (8 bytes, all    *)
(*     255: none), the number of its slots (1 byte, at most 15), and slots of 265 bytes: the  *)
(*     root of a tree (offset 8 bytes, length 4 bytes, length 0: no tree), a length and as     *)
(*     many bytes of metadata.                                                                *)
(*   the first slot's metadata: version, format (1 byte each), how many bytes of data are      *)
(*     indexed (8 bytes), how many records (varint).                                          *)
(*   the other slots': type, width, length of the name (2 bytes each), name, total (varint).    *)
(*   a node: its number of keys (4 bytes, negative for a leaf); the keys: offset and length of   *)
(*     the value in the data (varints) and, if the width is not 0, width - 1 bytes of value;      *)
(*     a leaf: offset and length of each key's record (varints); an inner node: the offsets of     *)
(*     its children, one more than keys (varints).                                               *)
(*   a node of vectors: its number of ids (4 bytes, negative for a leaf); the ids: offset and     *)
(*     length of the record, the id (varints); an inner node: the offsets of its children           *)
(*     (varints); the dimension (varint); the vectors (4 bytes per component).                      *)
EXTENDS Integers, Sequences, FiniteSets
PageSize == 4096
SlotStride == 265
MaxSlots == 15
\* a number too large to be one of a small file
Huge == -1
ByteAt(pg, i) == IF i < Len(pg) THEN pg[i + 1] ELSE 0
RECURSIVE LE(_, _, _)
LE(pg, i, n) ==
    IF n = 0 THEN 0
    ELSE LET hi == LE(pg, i + 1, n - 1)
         IN IF hi < 0 \/ hi >= 8000000 THEN Huge ELSE ByteAt(pg, i) + 256 * hi
RECURSIVE Uv(_, _, _)
\* <<number, first byte after it>>
Uv(pg, i, d) ==
    LET b == ByteAt(pg, i) IN
    IF d = 10 THEN <<Huge, i>>
    ELSE IF b < 128 THEN <<b, i + 1>>
    ELSE LET r == Uv(pg, i + 1, d + 1)
         IN <<IF r[1] < 0 \/ r[1] >= 16000000 THEN Huge ELSE (b - 128) + 128 * r[1], r[2]>>
Varint(pg, i) == Uv(pg, i, 0)
Bytes(pg, i, n) == [k \in 1..n |-> ByteAt(pg, i + k - 1)]
\* the number of a node's keys, and whether it is a leaf
Sign(pg) == IF ByteAt(pg, 3) >= 128 THEN TRUE ELSE FALSE
Keys(pg) ==
    IF Sign(pg)
    THEN IF ByteAt(pg, 2) = 255 /\ ByteAt(pg, 3) = 255 THEN 65536 - (ByteAt(pg, 0) + 256 * ByteAt(pg, 1)) ELSE Huge
    ELSE LE(pg, 0, 4)
PageOf(off, n) == IF off > 0 /\ off % PageSize = 0 /\ off \div PageSize < n THEN off \div PageSize ELSE 0

\* -- page 0 --------------------------------------------------------------------
RECURSIVE FreeFrom(_, _, _)
FreeFrom(pg, i, n) ==
    IF i = 512 \/ LE(pg, 8 * i, 8) = 0 THEN << >>
    ELSE <<PageOf(LE(pg, 8 * i, 8), n)>> \o FreeFrom(pg, i + 1, n)
Free(pages) == FreeFrom(pages[1], 0, Len(pages))

\* -- meta pages ------------------------------------------------------------------
Last(pg) == \A i \in 0..7 : ByteAt(pg, i) = 255
Slot(pg, i) ==
    LET at == 9 + i * SlotStride
    IN [root |-> LE(pg, at, 8), rlen |-> LE(pg, at + 8, 4), meta |-> Bytes(pg, at + 13, ByteAt(pg, at + 12))]
Slots(pg) == [i \in 1..ByteAt(pg, 8) |-> Slot(pg, i - 1)]
RECURSIVE MetaPages(_, _, _)
\* the numbers of the meta pages from p on
MetaPages(pages, p, fuel) ==
    IF p = 0 \/ fuel = 0 THEN <<0>>
    ELSE IF Last(pages[p + 1]) THEN <<p>>
    ELSE <<p>> \o MetaPages(pages, PageOf(LE(pages[p + 1], 0, 8), Len(pages)), fuel - 1)
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
FileRec(b) == [version |-> b[1], format |-> b[2], off |-> LE(b, 2, 8), entries |-> Varint(b, 10)[1]]
IndexRec(b) ==
    LET k == LE(b, 4, 2)
    IN [t |-> LE(b, 0, 2), w |-> LE(b, 2, 2), n |-> Bytes(b, 6, k), total |-> Varint(b, 6 + k)[1],
        ok |-> Len(b) >= 7 + k /\ Varint(b, 6 + k)[2] = Len(b)]

\* -- trees -----------------------------------------------------------------------
RECURSIVE NodeKeys(_, _, _, _), Pairs(_, _, _), Offsets(_, _, _, _)
\* <<keys, first byte after them>>
NodeKeys(pg, i, k, w) ==
    IF k = 0 THEN <<<< >>, i>>
    ELSE LET o == Varint(pg, i)
             n == Varint(pg, o[2])
             v == IF w = 0 THEN 0 ELSE w - 1
             r == NodeKeys(pg, n[2] + v, k - 1, w)
         IN <<<<[o |-> o[1], n |-> n[1], v |-> Bytes(pg, n[2], v)]>> \o r[1], r[2]>>
Pairs(pg, i, k) ==
    IF k = 0 THEN <<<< >>, i>>
    ELSE LET o == Varint(pg, i)
             n == Varint(pg, o[2])
             r == Pairs(pg, n[2], k - 1)
         IN <<<<<<o[1], n[1]>>>> \o r[1], r[2]>>
Offsets(pg, i, k, n) ==
    IF k = 0 THEN <<<< >>, i>>
    ELSE LET o == Varint(pg, i)
             r == Offsets(pg, o[2], k - 1, n)
         IN <<<<PageOf(o[1], n)>> \o r[1], r[2]>>
Bad == [ok |-> FALSE, es |-> << >>, seps |-> << >>, pages |-> << >>, depth |-> 0]
\* a tree below page p: its entries in order; between two of them a separator of each inner node (in order, with its
\* place: how many entries are before it); its pages; ok: every page is a node within its page, all leaves equally deep
RECURSIVE Tree(_, _, _, _), Kids(_, _, _, _, _)
Tree(pages, p, w, fuel) ==
    IF p = 0 \/ fuel = 0 \/ p >= Len(pages) THEN Bad
    ELSE LET pg == pages[p + 1]
             k == Keys(pg)
         IN IF k <= 0 \/ k > 2048 THEN Bad
            ELSE LET ks == NodeKeys(pg, 4, k, w)
                 IN IF Sign(pg)
                    THEN LET rs == Pairs(pg, ks[2], k)
                         IN [ok |-> rs[2] <= PageSize, pages |-> <<p>>, depth |-> 0, seps |-> << >>,
                             es |-> [i \in 1..k |-> [o |-> ks[1][i].o, n |-> ks[1][i].n, v |-> ks[1][i].v,
                                                     ro |-> rs[1][i][1], rn |-> rs[1][i][2]]]]
                    ELSE LET cs == Offsets(pg, ks[2], k + 1, Len(pages))
                             r == Kids(pages, cs[1], ks[1], w, fuel - 1)
                         IN [r EXCEPT !.ok = @ /\ cs[2] <= PageSize, !.pages = <<p>> \o @, !.depth = @ + 1]
Kids(pages, cs, ks, w, fuel) ==
    LET a == Tree(pages, Head(cs), w, fuel) IN
    IF Len(cs) = 1 \/ ~a.ok THEN a
    ELSE LET b == Kids(pages, Tail(cs), Tail(ks), w, fuel)
             n == Len(a.es)
         IN [ok |-> b.ok /\ a.depth = b.depth, es |-> a.es \o b.es, pages |-> a.pages \o b.pages, depth |-> a.depth,
             seps |-> a.seps \o <<[k |-> Head(ks), at |-> n]>> \o [i \in 1..Len(b.seps) |-> [b.seps[i] EXCEPT !.at = @ + n]]]

\* -- vectors -----------------------------------------------------------------------
RECURSIVE Ids(_, _, _)
Ids(pg, i, k) ==
    IF k = 0 THEN <<<< >>, i>>
    ELSE LET o == Varint(pg, i)
             n == Varint(pg, o[2])
             v == Varint(pg, n[2])
             r == Ids(pg, v[2], k - 1)
         IN <<<<[ro |-> o[1], rn |-> n[1], id |-> v[1]]>> \o r[1], r[2]>>
RECURSIVE VTree(_, _, _), VKids(_, _, _, _)
VTree(pages, p, fuel) ==
    IF p = 0 \/ fuel = 0 \/ p >= Len(pages) THEN Bad
    ELSE LET pg == pages[p + 1]
             k == Keys(pg)
         IN IF k <= 0 \/ k > 2048 THEN Bad
            ELSE LET ids == Ids(pg, 4, k)
                     cs == IF Sign(pg) THEN <<<< >>, ids[2]>> ELSE Offsets(pg, ids[2], k + 1, Len(pages))
                     d == Varint(pg, cs[2])
                 IN IF d[1] <= 0 \/ d[2] + 4 * d[1] * k > PageSize THEN Bad
                    ELSE LET es == [i \in 1..k |-> [ro |-> ids[1][i].ro, rn |-> ids[1][i].rn, id |-> ids[1][i].id,
                                                    v |-> Bytes(pg, d[2] + 4 * d[1] * (i - 1), 4 * d[1])]]
                         IN IF Sign(pg) THEN [Bad EXCEPT !.ok = TRUE, !.es = es, !.pages = <<p>>]
                            ELSE LET r == VKids(pages, cs[1], es, fuel - 1)
                                 IN [r EXCEPT !.pages = <<p>> \o @, !.depth = @ + 1]
VKids(pages, cs, ks, fuel) ==
    LET a == VTree(pages, Head(cs), fuel) IN
    IF Len(cs) = 1 \/ ~a.ok THEN a
    ELSE LET b == VKids(pages, Tail(cs), Tail(ks), fuel)
             n == Len(a.es)
         IN [ok |-> b.ok /\ a.depth = b.depth, es |-> a.es \o b.es, pages |-> a.pages \o b.pages, depth |-> a.depth,
             seps |-> a.seps \o <<[k |-> Head(ks), at |-> n]>> \o [i \in 1..Len(b.seps) |-> [b.seps[i] EXCEPT !.at = @ + n]]]
=============================================================================
