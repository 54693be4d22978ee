----------------------------- MODULE FullTrace ------------------------------
(* The indexing program runs out of room for its index: it fails, the index it leaves    *)
(* holds what it says it does, and once there is room again the next run completes it.   *)
EXTENDS TraceBase
VARIABLES st
vars == <<st, tid, l>>
EndOf(m) == IF m = 0 THEN 0 ELSE Cfg.ends[m]
TInit == TBInit /\ st = "none"
Readable == E.res = "ok" /\ E.extra = 0 /\ E.dup = 0 /\ E.dupidx = 0 /\ E.missOld = 0
Step ==
    /\ HasEv /\ Consume
    /\ \/ E.op \in {"base", "full"} /\ E.res = "ok" /\ UNCHANGED st
       \/ E.op = "start" /\ st' = "old"
       \/ /\ E.op = "full-disk" /\ Readable /\ st = "old"
          /\ E.entries \in Cfg.old..Cfg.all /\ E.off = EndOf(E.entries) /\ E.missNow = 0
          /\ E.exit \in {"ok", "fail"} /\ (E.exit = "ok" => E.entries = Cfg.all)
          /\ st' = "cut"
       \/ /\ E.op = "resync" /\ st = "cut" /\ E.sres = "ok" /\ Readable
          /\ E.off = EndOf(Cfg.all) /\ E.entries = Cfg.all /\ E.missNew = 0 /\ st' = "new"
TNext == Step \/ (TBDone /\ UNCHANGED st)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
