-------------------------------- MODULE Hnsw --------------------------------
(* What has to hold of the navigable small world graph of pkg/hnsw, whatever levels are    *)
(* drawn and whichever of equally near vectors the search meets first.                     *)
(* pts: the vectors, node i is pts[i+1] (ids count from 0); adj[i+1][k+1]: the friends of    *)
(* node i at level k, a function id -> distance squared.                                    *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sq(_, _, _)
Sq(p, q, i) == IF i > Len(p) THEN 0 ELSE (p[i] - q[i]) * (p[i] - q[i]) + Sq(p, q, i + 1)
Dist(p, q) == Sq(p, q, 1)

\* a graph over n nodes; M friends at most at upper levels, M0 at the lowest
Wf(pts, adj, M, M0) ==
    LET n == Len(pts) IN
    /\ Len(adj) = n
    /\ \A i \in 1..n : Len(adj[i]) >= 1
    /\ \A i \in 1..n : \A k \in 1..Len(adj[i]) :
        LET f == adj[i][k] IN
        /\ Cardinality(DOMAIN f) <= (IF k = 1 THEN M0 ELSE M)
        /\ \A j \in DOMAIN f :
            /\ j \in 0..(n - 1)                     \* a stored vector
            /\ j # i - 1                            \* not itself
            /\ Len(adj[j + 1]) >= k                 \* which is on this level too
            /\ f[j] = Dist(pts[i], pts[j + 1])      \* and this far away

\* one insertion: a new node q; whoever was there keeps its levels and its friends, except
\* that q can be added and then the furthest friends dropped for want of room
Grown(old, new, pts, M) ==
    LET n == Len(old)
        q == n                                      \* the id of the new node
    IN
    /\ Len(new) = n + 1
    /\ \A i \in 1..n : Len(new[i]) = Len(old[i])
    /\ \A i \in 1..n : \A k \in 1..Len(old[i]) :
        LET a == old[i][k]
            b == new[i][k]
            gone == DOMAIN a \ DOMAIN b
        IN /\ DOMAIN b \ DOMAIN a \subseteq {q}
           /\ \A j \in DOMAIN a \cap DOMAIN b : a[j] = b[j]
           /\ gone # {} => /\ i - 1 \in DOMAIN new[n + 1][k]       \* only where q came in
                           /\ \A g \in gone : \A j \in DOMAIN b : b[j] <= a[g]
    \* the new node has friends on every level it shares with another node (the search comes
    \* down from the highest one), and each of them took it as a friend or has only friends at least as near
    /\ \A k \in 1..Len(new[n + 1]) : (\E i \in 1..n : Len(old[i]) >= k) => DOMAIN new[n + 1][k] # {}
    /\ \A k \in 1..Len(new[n + 1]) : \A j \in DOMAIN new[n + 1][k] :
        LET f == new[j + 1][k] IN
        \/ q \in DOMAIN f
        \/ /\ Cardinality(DOMAIN f) >= M
           /\ \A x \in DOMAIN f : f[x] <= Dist(pts[n + 1], pts[j + 1])

\* the answer of a search, a function id -> distance, of at most k: exact distances; and no
\* friend (lowest level) of an answer is left out for a further one
Answer(pts, adj, r, q, k, ef) ==
    LET c == IF k < ef THEN k ELSE ef
        n == Len(pts)
    IN
    /\ DOMAIN r \subseteq 0..(n - 1)
    /\ \A i \in DOMAIN r : r[i] = Dist(pts[i + 1], q)
    /\ Cardinality(DOMAIN r) <= c
    /\ c > 0 => DOMAIN r # {}
    /\ \A i \in DOMAIN r : \A j \in DOMAIN adj[i + 1][1] \ DOMAIN r :
        /\ Cardinality(DOMAIN r) = c
        /\ \A x \in DOMAIN r : r[x] <= Dist(pts[j + 1], q)
\* with room for everything the search is exact
Exact(pts, r, q, k) ==
    LET n == Len(pts) IN
    /\ Cardinality(DOMAIN r) = (IF k < n THEN k ELSE n)
    /\ \A i \in DOMAIN r : \A j \in (0..(n - 1)) \ DOMAIN r : r[i] <= Dist(pts[j + 1], q)
=============================================================================
