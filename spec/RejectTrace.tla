----------------------------- MODULE RejectTrace -----------------------------
(* A synchronisation that meets a record which cannot be indexed fails without a panic  *)
(* and leaves exactly the records before it; it goes on once the record is repaired.    *)
(* Data shorter than what is indexed is refused and changes nothing.                    *)
(* Sync!RefusedAtBad and Sync!CompleteAfterOk, across versions of the data file.        *)
EXTENDS TraceBase, FiniteSets
VARIABLES done, wm, dig
vars == <<done, wm, dig, tid, l>>
V(e) == Cfg.vers[e.ver]
TInit == TBInit /\ done = 0 /\ wm = 0 /\ dig = Cfg.vers[1].batch[1]
Complete(e) == Cardinality({i \in 1..Len(V(e).ends) : V(e).ends[i] <= e.vis})
FirstBad(e) == IF \E i \in 1..Len(V(e).bad) : V(e).bad[i]
               THEN CHOOSE i \in 1..Len(V(e).bad) : V(e).bad[i] /\ \A j \in 1..(i - 1) : ~V(e).bad[j]
               ELSE Len(V(e).bad) + 1
EndOf(e, m) == IF m = 0 THEN 0 ELSE V(e).ends[m]
Short == /\ E.vis < wm /\ E.res = "err" /\ UNCHANGED <<done, wm, dig>>
Refused == /\ E.vis >= wm /\ FirstBad(E) <= Complete(E) /\ E.res = "err" /\ done' = FirstBad(E) - 1
Indexed == /\ E.vis >= wm /\ FirstBad(E) > Complete(E) /\ E.res = "ok" /\ done' = Complete(E)
Step ==
    /\ HasEv /\ Consume
    /\ E.op = "sync"
    /\ \/ Short
       \/ (Refused \/ Indexed) /\ wm' = EndOf(E, done') /\ dig' = V(E).batch[done' + 1]
    /\ E.off = wm' /\ E.entries = done' /\ E.dig = dig'
TNext == Step \/ (TBDone /\ UNCHANGED <<done, wm, dig>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
