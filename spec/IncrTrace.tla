----------------------------- MODULE IncrTrace -----------------------------
(* Catching up in any number of steps, at any points of the data, equals indexing the   *)
(* same records at once: the trace gives the content (digest of catalogue and entries)  *)
(* of an index made at once for every number of records; each synchronisation must      *)
(* arrive exactly there.  Sync!CompleteAfterOk with an append-only data file.           *)
EXTENDS TraceBase, FiniteSets
VARIABLE done
vars == <<done, tid, l>>
Ends == Cfg.ends
TInit == TBInit /\ done = 0
Complete(vis) == Cardinality({i \in 1..Len(Ends) : Ends[i] <= vis})
EndOf(m) == IF m = 0 THEN 0 ELSE Ends[m]
Step ==
    /\ HasEv /\ Consume
    /\ E.op = "sync" /\ E.res = "ok"
    /\ done' = Complete(E.vis) /\ done' >= done
    /\ E.off = EndOf(done') /\ E.entries = done'
    /\ E.dig = Cfg.batch[done' + 1]
    \* nothing new: the index file is left as it is, byte for byte
    /\ (done' = done /\ l > 1) => E.same
TNext == Step \/ (TBDone /\ UNCHANGED done)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
