----------------------------- MODULE CrashTrace -----------------------------
(* A synchronisation killed between two writes (Sync!Crash): the index file is still    *)
(* readable; the watermark is the old or the new one and covers only indexed records;   *)
(* what was indexed before is there, nothing else than fields of the data is there; and *)
(* the next synchronisation completes the index.                                        *)
EXTENDS TraceBase
VARIABLES st
vars == <<st, tid, l>>
EndOf(m) == IF m = 0 THEN 0 ELSE Cfg.ends[m]
TInit == TBInit /\ st = "none"
\* what was read from the file
Readable == E.res = "ok" /\ E.names = "ok" /\ E.extra = 0 /\ E.dup = 0 /\ E.dupidx = 0 /\ E.missOld = 0
New == E.off = EndOf(Cfg.all) /\ E.entries = Cfg.all
Old == E.off = EndOf(Cfg.old) /\ E.entries = Cfg.old
Step ==
    /\ HasEv /\ Consume
    /\ \/ E.op \in {"base", "full"} /\ E.res = "ok" /\ UNCHANGED st
       \/ E.op = "start" /\ st' = "old"
       \/ /\ E.op = "kill" /\ Readable
          /\ \/ Old /\ st = "old" /\ st' = "old"
             \/ New /\ E.missNew = 0 /\ st' = "new"
       \/ /\ E.op = "resync" /\ E.sres = "ok" /\ Readable
          /\ New /\ E.missNew = 0 /\ st' = "new"
TNext == Step \/ (TBDone /\ UNCHANGED st)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
