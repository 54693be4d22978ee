------------------------------- MODULE BPTree -------------------------------
(* A B+ tree index (pkg/bptree) as its users see it: an ordered map from keys   *)
(* to record pointers.  A key is a value (byte sequence) together with the place *)
(* of the value in the data file (offset, length); keys are ordered by value     *)
(* bytes, then offset, then length.  The finite universe of keys of a run is a   *)
(* table sorted by that order, so keys are numbers and the order is <=.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE map           \* inserted key -> pointer
bvars == <<map>>
BInit == map = << >>
Has(k) == k \in DOMAIN map
Keys == DOMAIN map

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
AtOrAfter(k) == {x \in Keys : x >= k}
\* the smallest key at or after k, 0 if there is none
LowerBound(k) == IF AtOrAfter(k) = {} THEN 0 ELSE MinOf(AtOrAfter(k))

Insert(k, p) == ~Has(k) /\ map' = [x \in Keys \cup {k} |-> IF x = k THEN p ELSE map[x]]
Unchanged == UNCHANGED map

\* ordering of the key table -------------------------------------------------
BytesLess(a, b) ==
    \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
    \/ \E i \in 1..Len(a) :
         /\ i <= Len(b) /\ a[i] < b[i]
         /\ \A j \in 1..(i - 1) : a[j] = b[j]
KeyLess(a, b) ==
    \/ BytesLess(a.v, b.v)
    \/ a.v = b.v /\ (a.o < b.o \/ (a.o = b.o /\ a.n < b.n))
SortedTable(t) == \A i \in 1..(Len(t) - 1) : KeyLess(t[i], t[i + 1])

\* structure of the stored tree -----------------------------------------------
\* nodes: sequence of [leaf, ks, kids, vs, id]; nodes[1] is the root; kids are
\* positions in the sequence; ks are key numbers, vs the leaf's pointers.
RECURSIVE LeafSeq(_, _), DepthOf(_, _), InOrder(_, _, _, _)
LeafSeq(nodes, i) ==
    IF nodes[i].leaf THEN nodes[i].ks
    ELSE LET F[j \in 0..Len(nodes[i].kids)] ==
              IF j = 0 THEN << >> ELSE F[j - 1] \o LeafSeq(nodes, nodes[i].kids[j])
         IN F[Len(nodes[i].kids)]
\* depth of the leaves below i, -1 if they are not all at the same depth
DepthOf(nodes, i) ==
    IF nodes[i].leaf THEN 0
    ELSE LET D == {DepthOf(nodes, nodes[i].kids[j]) : j \in 1..Len(nodes[i].kids)}
         IN IF Cardinality(D) = 1 /\ -1 \notin D THEN 1 + (CHOOSE d \in D : TRUE) ELSE -1
\* all keys of the subtree lie in [lo, hi), and separators separate
InOrder(nodes, i, lo, hi) ==
    LET n == nodes[i] IN
    /\ Len(n.ks) > 0
    /\ \A j \in 1..Len(n.ks) : lo <= n.ks[j] /\ n.ks[j] < hi
    /\ \A j \in 1..(Len(n.ks) - 1) : n.ks[j] < n.ks[j + 1]
    /\ IF n.leaf THEN Len(n.vs) = Len(n.ks)
       ELSE /\ Len(n.kids) = Len(n.ks) + 1
            /\ \A j \in 1..Len(n.kids) :
                 InOrder(nodes, n.kids[j], IF j = 1 THEN lo ELSE n.ks[j - 1],
                                           IF j = Len(n.kids) THEN hi ELSE n.ks[j])
NoSharing(nodes) ==
    /\ Cardinality({nodes[i].id : i \in 1..Len(nodes)}) = Len(nodes)
    /\ LET refs == UNION {{<<i, j>> : j \in 1..Len(nodes[i].kids)} : i \in 1..Len(nodes)}
       IN Cardinality(refs) = Len(nodes) - 1
WellFormed(nodes, top) ==
    nodes # << >> =>
      /\ NoSharing(nodes)
      /\ InOrder(nodes, 1, 1, top + 1)
      /\ DepthOf(nodes, 1) >= 0
\* the leaves hold exactly the map
Holds(nodes, m) ==
    IF nodes = << >> THEN m = << >>
    ELSE LET s == LeafSeq(nodes, 1) IN
         /\ {s[i] : i \in 1..Len(s)} = DOMAIN m
         /\ Len(s) = Cardinality(DOMAIN m)
         /\ \A i \in 1..Len(nodes) : nodes[i].leaf =>
               \A j \in 1..Len(nodes[i].ks) : nodes[i].vs[j] = m[nodes[i].ks[j]]
=============================================================================
