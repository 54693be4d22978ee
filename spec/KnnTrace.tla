------------------------------ MODULE KnnTrace ------------------------------
(* Recorded searches of pkg/hnsw over a graph built by it (looked at before and after).    *)
EXTENDS Hnsw, TraceBase
VARIABLES pts, adj
vars == <<pts, adj, tid, l>>
Fun(ps) == [j \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE x \in Range(ps) : x[1] = j)[2]]
Graph(g) == [i \in 1..Len(g) |-> [k \in 1..Len(g[i]) |-> Fun(g[i][k])]]
TInit == TBInit /\ pts = <<>> /\ adj = <<>>
Found ==
    LET r == Fun(E.r) IN
    /\ E.res = "ok" /\ Cardinality(DOMAIN r) = Len(E.r)
    /\ Answer(pts, adj, r, E.q, E.k, Cfg.ef)
    /\ (Cfg.m >= Len(pts) - 1 /\ Cfg.ef >= Len(pts)) => Exact(pts, r, E.q, E.k)
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "new" -> E.res = "ok" /\ pts' = <<E.p>> /\ UNCHANGED adj
         [] E.op = "insert" -> E.res = "ok" /\ pts' = Append(pts, E.p) /\ UNCHANGED adj
         [] E.op = "graph" -> adj' = Graph(E.graph) /\ Len(adj') = Len(pts) /\ (adj # <<>> => adj' = adj) /\ UNCHANGED pts
         [] E.op = "knn" /\ Len(E.q) = Cfg.dim -> Found /\ UNCHANGED <<pts, adj>>
         [] E.op = "knn" /\ Len(E.q) # Cfg.dim -> E.res = "err" /\ UNCHANGED <<pts, adj>>
TNext == Step \/ (TBDone /\ UNCHANGED <<pts, adj>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
