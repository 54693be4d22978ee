----------------------------- MODULE HistTrace -----------------------------
(* Histories of a data file and its index (SyncGen), against Sync: after every step of  *)
(* the code, what the index file holds is a state that Sync allows there.  The kinds of  *)
(* steps are Sync's: Append1, Repair, a whole synchronisation (Begin .. Commit or        *)
(* Refuse), one that is killed (Begin .. Crash).  A torn line is no line yet, data cut   *)
(* short is refused.                                                                     *)
EXTENDS Sync, TraceBase
VARIABLES torn
hvars == <<vars, torn, tid, l>>
TInit == TBInit /\ Init /\ torn = FALSE
Obs(ks) == UNION {{<<r, ks[r][i]>> : i \in 1..Len(ks[r])} : r \in 1..Len(ks)}
Idle == run' = "idle" /\ pos' = 0 /\ fld' = 0 /\ crashes' = 0
\* the data changes, behind what is indexed
Data == /\ data' = E.data /\ torn' = E.torn /\ res' = "none" /\ UNCHANGED <<wm, ent, keys>>
        /\ Len(data') >= Len(data) /\ \A i \in 1..wm : data'[i] = data[i]
\* what is read from the index file
Observed == /\ wm' = E.wm /\ ent' = E.ent /\ keys' = Obs(E.keys) /\ E.extra = 0 /\ E.dup = 0
            /\ UNCHANGED <<data, torn>>
Target == FirstBad(data) - 1
Whole == /\ res' = (IF FirstBad(data) <= Len(data) THEN "err" ELSE "ok")
         /\ Observed /\ E.res = res'
         /\ CompleteAfterOk' /\ RefusedAtBad'
         \* with nothing new nothing is written
         /\ (wm > 0 /\ wm = Target => E.same)
Killed == /\ res' = "crash" /\ Observed /\ E.res = "ok"
          /\ wm' \in {wm, Target} /\ ent' = wm'
          /\ keys' \subseteq KeysTo(data, Target)
Cut == /\ res' = res /\ Observed /\ E.res = "err" /\ E.same /\ UNCHANGED <<wm, ent, keys>>
Step ==
    /\ HasEv /\ Consume /\ Idle
    /\ CASE E.op \in {"append", "repair", "tear"} -> Data
         [] E.op = "sync" -> Whole
         [] E.op = "kill" -> Killed
         [] E.op = "cut" -> Cut
         [] OTHER -> FALSE
    /\ Covered' /\ Sound' /\ wm' >= wm /\ keys \subseteq keys'
TNext == Step \/ (TBDone /\ UNCHANGED <<vars, torn>>)
TSpec == TInit /\ [][TNext]_hvars
=============================================================================
