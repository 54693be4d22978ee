------------------------------ MODULE VecTrace ------------------------------
(* The vector store (pkg/btree): a map from ids to (vector, pointer), kept in a tree *)
(* of the same shape and insertion algorithm as the B+ tree (BPTreeImpl.tla), whose   *)
(* order is the numeric order of ids (the key table holds them as 8 big-endian bytes). *)
EXTENDS BPTree, TraceBase
vars == <<map, tid, l>>
Table == Cfg.keys
Top == Len(Table)
TInit == TBInit /\ BInit
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "open" -> E.res = "ok" /\ (SortedTable(Table) = TRUE) /\ Unchanged
         [] E.op = "reopen" -> E.res = "ok" /\ Unchanged
         [] E.op = "ins" /\ ~Has(E.k) -> E.res = "ok" /\ ~E.over /\ Insert(E.k, E.p)
         [] E.op = "ins" /\ Has(E.k) -> E.res = "err" /\ ~E.over /\ Unchanged
         \* a vector of another dimensionality is refused
         [] E.op = "insbad" -> E.dim # Cfg.dim /\ E.res = "err" /\ ~E.over /\ Unchanged
         \* a stored id gives back exactly the vector and pointer stored with it
         [] E.op = "find" /\ Has(E.k) -> E.res = "ok" /\ E.found = E.k /\ E.p = map[E.k] /\ Unchanged
         \* any other id never gives a vector
         [] E.op = "find" /\ ~Has(E.k) -> E.res \in {"ok", "err"} /\ E.p = "" /\ Unchanged
         [] E.op = "walk" ->
              /\ E.res = "ok"
              /\ WellFormed(E.nodes, Top)
              /\ Holds(E.nodes, map)
              \* every page is in the tree or free
              /\ \A i \in 1..Len(E.free) : \A j \in 1..Len(E.nodes) : E.free[i] # E.nodes[j].id
              /\ \A i, j \in 1..Len(E.free) : E.free[i] = E.free[j] => i = j
              /\ E.pages = Len(E.nodes) + Len(E.free)
              /\ Unchanged
TNext == Step \/ (TBDone /\ UNCHANGED map)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
