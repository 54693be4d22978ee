---------------------------- MODULE BPTreeTrace ----------------------------
EXTENDS BPTree, TraceBase
vars == <<map, tid, l>>
Table == Cfg.keys
Top == Len(Table)
TInit == TBInit /\ BInit
SameValue(a, b) == Table[a].v = Table[b].v
\* membership asks for the value of k among the keys at or after k
Contained(k) == LowerBound(k) # 0 /\ SameValue(LowerBound(k), k)
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "open" -> E.res = "ok" /\ (SortedTable(Table) = TRUE) /\ Unchanged
         [] E.op = "reopen" -> E.res = "ok" /\ Unchanged
         [] E.op = "ins" /\ ~Has(E.k) -> E.res = "ok" /\ ~E.over /\ Insert(E.k, E.p)
         \* the same key again is refused and changes nothing
         [] E.op = "ins" /\ Has(E.k) -> E.res = "err" /\ ~E.over /\ Unchanged
         \* so is a value whose length is not the width of the index
         [] E.op = "insbad" -> E.res = "err" /\ ~E.over /\ Unchanged
         [] E.op = "find" ->
              /\ E.res = "ok"
              /\ E.found = LowerBound(E.k)
              /\ E.found # 0 => E.p = map[E.found]
              /\ Unchanged
         [] E.op = "has" -> E.res = "ok" /\ E.b = Contained(E.k) /\ Unchanged
         [] E.op = "walk" ->
              /\ E.res = "ok"
              /\ WellFormed(E.nodes, Top)
              /\ Holds(E.nodes, map)
              \* every page is in the tree or free
              /\ \A i \in 1..Len(E.free) : \A j \in 1..Len(E.nodes) : E.free[i] # E.nodes[j].id
              /\ \A i, j \in 1..Len(E.free) : E.free[i] = E.free[j] => i = j
              /\ E.pages = Len(E.nodes) + Len(E.free)
              /\ Unchanged
TNext == Step \/ (TBDone /\ UNCHANGED map)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
