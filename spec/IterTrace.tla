----------------------------- MODULE IterTrace -----------------------------
(* A positioned iterator over the keys stored in a tree: position 0 is before the *)
(* first key, n+1 after the last.  It starts at the lower bound of the given key;  *)
(* the first forward step stays there, every other step moves by one and stops at  *)
(* either end; it can turn around anywhere.                                        *)
EXTENDS BPTree, TraceBase
VARIABLES pos, started
vars == <<map, pos, started, tid, l>>
Seq0 == Cfg.seq                    \* the stored keys in order, with their pointers
N == Len(Seq0)
LB(k) == IF \E i \in 1..N : Seq0[i][1] >= k THEN MinOf({i \in 1..N : Seq0[i][1] >= k}) ELSE N + 1
Ordered == \A i \in 1..(N - 1) : Seq0[i][1] < Seq0[i + 1][1]
TInit == TBInit /\ BInit /\ pos = 0 /\ started = TRUE
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > N + 1 THEN N + 1 ELSE x
Start == started' = FALSE /\ pos' = LB(E.k)
MoveNext == started' = TRUE /\ pos' = IF started THEN Clamp(pos + 1) ELSE pos
MovePrev == started' = TRUE /\ pos' = Clamp(pos - 1)
Reports == /\ E.res = "ok"
           /\ E.b = (pos' \in 1..N)
           /\ E.b => E.k = Seq0[pos'][1] /\ E.p = Seq0[pos'][2]
Step ==
    /\ HasEv /\ Consume /\ UNCHANGED map
    /\ CASE E.op = "iter" -> E.res = "ok" /\ ((SortedTable(Cfg.keys) /\ Ordered) = TRUE) /\ Start
         \* a step at which the storage fails says so and leaves the iterator where it was
         [] E.op \in {"next", "prev"} /\ E.fault -> E.res = "err" /\ ~E.b /\ UNCHANGED <<pos, started>>
         [] E.op = "next" -> MoveNext /\ Reports
         [] E.op = "prev" -> MovePrev /\ Reports
TNext == Step \/ (TBDone /\ UNCHANGED <<map, pos, started>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
