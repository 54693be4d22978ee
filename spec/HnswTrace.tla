------------------------------ MODULE HnswTrace ------------------------------
(* Recorded insertions of pkg/hnsw: after each the whole graph is looked at.              *)
EXTENDS Hnsw, TraceBase
VARIABLES pts, adj
vars == <<pts, adj, tid, l>>
M == Cfg.m
Fun(ps) == [j \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE x \in Range(ps) : x[1] = j)[2]]
OneEach(g) == \A i \in 1..Len(g) : \A k \in 1..Len(g[i]) : Cardinality({x[1] : x \in Range(g[i][k])}) = Len(g[i][k])
Graph(g) == [i \in 1..Len(g) |-> [k \in 1..Len(g[i]) |-> Fun(g[i][k])]]
TInit == TBInit /\ pts = <<>> /\ adj = <<>>
Look(g) == OneEach(g) /\ ~E.more /\ adj' = Graph(g) /\ Wf(pts', adj', M, 2 * M)
\* the record of a node's friends: the nearest ones, each with the highest level it is a friend on
Record(i, n, fs) ==
    LET f == adj[i + 1][1]
        c == IF n < Cardinality(DOMAIN f) THEN n ELSE Cardinality(DOMAIN f)
        ids == {fs[x][2] : x \in 1..c}
    IN /\ Len(fs) = n /\ Cardinality(ids) = c /\ ids \subseteq DOMAIN f
       /\ \A x \in 1..c : \A y \in x..c : f[fs[x][2]] <= f[fs[y][2]]
       /\ \A a \in ids : \A b \in DOMAIN f \ ids : f[a] <= f[b]
       /\ \A x \in 1..c : LET ks == {k \in 1..Len(adj[i + 1]) : fs[x][2] \in DOMAIN adj[i + 1][k]}
                          IN fs[x][1] + 1 \in ks /\ \A k \in ks : k <= fs[x][1] + 1
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "new" -> E.res = "ok" /\ pts' = <<E.p>> /\ Look(E.graph) /\ \A k \in 1..Len(adj'[1]) : adj'[1][k] = <<>>
         [] E.op = "insert" /\ Len(E.p) = Cfg.dim ->
              /\ E.res = "ok" /\ E.id = Len(pts) /\ pts' = Append(pts, E.p)
              /\ Look(E.graph) /\ Grown(adj, adj', pts', M)
         [] E.op = "insert" /\ Len(E.p) # Cfg.dim ->
              E.res = "err" /\ UNCHANGED pts /\ Look(E.graph) /\ adj' = adj
         \* the friends of one node used directly: entered on the level named and all below
         [] E.op = "fnew" -> /\ E.levels = E.top + 1 /\ E.topl = E.top /\ E.has /\ ~E.above
                             /\ adj' = <<[k \in 1..(E.top + 1) |-> <<>>]>> /\ UNCHANGED pts
         [] E.op = "fins" ->
              /\ E.res = "ok" /\ OneEach(E.graph) /\ UNCHANGED pts
              /\ adj' = Graph(E.graph)
              /\ adj' = <<[k \in 1..Len(adj[1]) |->
                            IF k - 1 <= E.level
                            THEN [j \in DOMAIN adj[1][k] \cup {E.id} |-> IF j = E.id THEN E.d ELSE adj[1][k][j]]
                            ELSE adj[1][k]]>>
         [] E.op = "flush" -> E.res = "ok" /\ E.len = 5 * E.n /\ Record(E.i, E.n, E.fs) /\ UNCHANGED <<pts, adj>>
TNext == Step \/ (TBDone /\ UNCHANGED <<pts, adj>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
