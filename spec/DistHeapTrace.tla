--------------------------- MODULE DistHeapTrace ---------------------------
(* Recorded behaviours of pkg/hnsw's heap against DistHeap.  After every operation the   *)
(* recorder looks at every heap of the trace: its length and both its ends.               *)
EXTENDS DistHeap, TraceBase
vars == <<heaps, tid, l>>
TInit == TBInit /\ heaps = <<>>
\* what was seen of the heaps after the event
Seen(o, q) ==
    /\ o.n = Cardinality(DOMAIN q) /\ o.empty = (DOMAIN q = {})
    /\ IF DOMAIN q = {} THEN o.min.res = "err" /\ o.max.res = "err"
       ELSE /\ o.min.res = "ok" /\ IsMin(q, o.min.id) /\ o.min.d = q[o.min.id]
            /\ o.max.res = "ok" /\ IsMax(q, o.max.id) /\ o.max.d = q[o.max.id]
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "new" -> New
         [] E.op = "clone" -> Clone(E.h)
         [] E.op = "insert" -> E.res = "ok" /\ Insert(E.h, E.id, E.d)
         [] E.op = "popmin" ->
              IF Empty(heaps[E.h]) THEN E.res = "err" /\ UNCHANGED heaps
              ELSE E.res = "ok" /\ PopMin(E.h, E.id) /\ E.d = heaps[E.h][E.id]
         [] E.op = "popmax" ->
              IF Empty(heaps[E.h]) THEN E.res = "err" /\ UNCHANGED heaps
              ELSE E.res = "ok" /\ PopMax(E.h, E.id) /\ E.d = heaps[E.h][E.id]
    /\ Len(E.obs) = Len(heaps')
    /\ \A h \in 1..Len(heaps') : Seen(E.obs[h], heaps'[h])
TNext == Step \/ (TBDone /\ UNCHANGED heaps)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
