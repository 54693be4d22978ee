------------------------------ MODULE HnswImpl ------------------------------
(* The algorithm of pkg/hnsw: greedy search level by level, insertion with M nearest          *)
(* neighbours and pruning, over points on a line and every choice of levels.  Checked: the     *)
(* graph stays well formed (Hnsw!Wf), each insertion changes no more than it may (Hnsw!Grown),  *)
(* and every search answer is closed under friends (Hnsw!Answer), exact when there is room.     *)
(* Switch PerLevel: friends are entered on the level searched only; FALSE: on all levels below   *)
(* as well (the new vector then meets itself while descending).                                *)
EXTENDS Hnsw, TLC
CONSTANTS Coords, MaxLevel, MaxNodes, M, EF, PerLevel
VARIABLES pts, adj, entry, last    \* last: the graph before the last insertion
vars == <<pts, adj, entry, last>>
None == [j \in {} |-> 0]
Put(f, j, d) == [x \in DOMAIN f \cup {j} |-> IF x = j THEN d ELSE f[x]]
Del(f, j) == [x \in DOMAIN f \ {j} |-> f[x]]
MinOf(f) == CHOOSE j \in DOMAIN f : \A x \in DOMAIN f : f[j] < f[x] \/ (f[j] = f[x] /\ j <= x)
MaxOf(f) == CHOOSE j \in DOMAIN f : \A x \in DOMAIN f : f[j] > f[x] \/ (f[j] = f[x] /\ j <= x)
RECURSIVE Shrink(_, _)
Shrink(f, n) == IF Cardinality(DOMAIN f) <= n THEN f ELSE Shrink(Del(f, MaxOf(f)), n)
RECURSIVE Nearest(_, _)
Nearest(f, n) == IF n = 0 \/ DOMAIN f = {} THEN {} ELSE {MinOf(f)} \cup Nearest(Del(f, MinOf(f)), n - 1)

\* look at the friends of one candidate
RECURSIVE Visit(_, _, _, _, _, _, _)
Visit(P, q, ids, cand, found, vis, num) ==
    IF ids = {} THEN <<cand, found, vis>>
    ELSE LET j == CHOOSE x \in ids : \A y \in ids : x <= y
             d == Dist(P[j + 1], q)
         IN IF j \in vis THEN Visit(P, q, ids \ {j}, cand, found, vis, num)
            ELSE IF d < found[MaxOf(found)] \/ Cardinality(DOMAIN found) < num
                 THEN Visit(P, q, ids \ {j}, Put(cand, j, d), Shrink(Put(found, j, d), num), vis \cup {j}, num)
                 ELSE Visit(P, q, ids \ {j}, cand, found, vis \cup {j}, num)
RECURSIVE Loop(_, _, _, _, _, _, _, _)
Loop(P, G, q, cand, found, vis, num, k) ==
    IF DOMAIN cand = {} THEN found
    ELSE LET c == MinOf(cand) IN
         IF cand[c] > found[MaxOf(found)] THEN found
         ELSE LET r == Visit(P, q, DOMAIN G[c + 1][k], Del(cand, c), found, vis, num)
              IN Loop(P, G, q, r[1], r[2], r[3], num, k)
\* k: level + 1
SearchLevel(P, G, q, e, num, k) ==
    LET s == Put(None, e, Dist(P[e + 1], q)) IN Loop(P, G, q, s, s, {}, num, k)
RECURSIVE Descend(_, _, _, _, _, _)
Descend(P, G, q, e, k, stop) ==
    IF k <= stop THEN e ELSE Descend(P, G, q, MinOf(SearchLevel(P, G, q, e, 1, k)), k - 1, stop)

Levels(k) == IF PerLevel THEN {k} ELSE 1..k
Enter(G, i, k, j, d) == [G EXCEPT ![i + 1] = [x \in 1..Len(@) |-> IF x \in Levels(k) THEN Put(@[x], j, d) ELSE @[x]]]
RECURSIVE Connect(_, _, _, _, _)
Connect(P, G, q, ns, k) ==          \* q: the id of the new node
    IF ns = {} THEN G
    ELSE LET j == CHOOSE x \in ns : TRUE
             d == Dist(P[j + 1], P[q + 1])
         IN Connect(P, Enter(Enter(G, j, k, q, d), q, k, j, d), q, ns \ {j}, k)
Prune(G, ns, k) == [i \in 1..Len(G) |-> IF i - 1 \in ns THEN [G[i] EXCEPT ![k] = Shrink(@, M)] ELSE G[i]]
RECURSIVE Layers(_, _, _, _, _)
Layers(P, G, q, e, k) ==
    IF k = 0 THEN G
    ELSE LET f == SearchLevel(P, G, P[q + 1], e, EF, k)
             ns == Nearest(f, M)
             rest == IF Cardinality(DOMAIN f) <= M THEN f ELSE [x \in DOMAIN f \ ns |-> f[x]]
         IN Layers(P, Prune(Connect(P, G, q, ns, k), ns, k), q, MinOf(rest), k - 1)

Init == pts = <<<<0>>>> /\ adj = <<<<None>>>> /\ entry = 0 /\ last = <<>>
Insert(x, L) ==
    LET q == Len(pts)
        P == Append(pts, <<x>>)
        G0 == Append(adj, [k \in 1..(L + 1) |-> None])
        top == Len(adj[entry + 1])
        e == Descend(P, G0, <<x>>, entry, top, L + 2)
        G == Layers(P, G0, q, e, IF top < L + 1 THEN top ELSE L + 1)
    IN /\ Len(pts) < MaxNodes
       /\ pts' = P /\ adj' = G /\ last' = adj
       /\ entry' = IF L + 1 > top THEN q ELSE entry
Next == \E x \in Coords : \E L \in 0..MaxLevel : Insert(x, L)
Spec == Init /\ [][Next]_vars

WellFormed == Wf(pts, adj, M, 2 * M)
Grows == last # <<>> => Grown(last, adj, pts, M)
Knn(q, k) == LET e == Descend(pts, adj, q, entry, Len(adj[entry + 1]), 1)
             IN Shrink(SearchLevel(pts, adj, q, e, EF, 1), k)
Answers == \A x \in Coords : \A k \in 1..EF :
    LET r == Knn(<<x>>, k) IN
    /\ Answer(pts, adj, r, <<x>>, k, EF)
    /\ (M >= Len(pts) - 1 /\ EF >= Len(pts)) => Exact(pts, r, <<x>>, k)
=============================================================================
