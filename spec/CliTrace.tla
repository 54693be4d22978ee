------------------------------ MODULE CliTrace ------------------------------
(* The indexing program run again and again on a data file that grows, is repaired or is  *)
(* used wrongly.  Its exit status tells whether the index covers the data; the index file  *)
(* holds exactly the records of RejectTrace; and nothing but the index is ever written.    *)
EXTENDS TraceBase, FiniteSets
VARIABLES done, wm, dig, there
vars == <<done, wm, dig, there, tid, l>>
V(e) == Cfg.vers[e.ver]
TInit == TBInit /\ done = 0 /\ wm = 0 /\ dig = Cfg.vers[1].batch[1] /\ there = FALSE
Ends(e, vis) == Cardinality({i \in 1..Len(V(e).ends) : V(e).ends[i] <= vis})
FirstBad(e) == IF \E i \in 1..Len(V(e).bad) : V(e).bad[i]
               THEN CHOOSE i \in 1..Len(V(e).bad) : V(e).bad[i] /\ \A j \in 1..(i - 1) : ~V(e).bad[j]
               ELSE Len(V(e).bad) + 1
EndOf(e, m) == IF m = 0 THEN 0 ELSE V(e).ends[m]
\* the data grew from vis to vis2 while the program ran: it saw some of the lengths between
Complete(e) == {Ends(e, v) : v \in {e.vis, e.vis2} \cup {V(e).ends[i] : i \in {j \in 1..Len(V(e).ends) : e.vis <= V(e).ends[j] /\ V(e).ends[j] <= e.vis2}}}
\* the numbers of records the index may hold after a run
Seen == IF E.exit = "0" THEN {m \in Complete(E) : FirstBad(E) > m /\ m >= done}
        ELSE IF E.exit = "fail" THEN {FirstBad(E) - 1 : m \in {m \in Complete(E) : FirstBad(E) <= m}}
        ELSE {}
Short ==
    /\ E.vis < wm /\ E.exit = "fail" /\ UNCHANGED <<done, wm, dig>>
    /\ E.off = wm /\ E.entries = done /\ E.dig = dig
Run ==
    /\ E.vis2 >= wm
    /\ E.entries \in Seen
    /\ done' = E.entries /\ wm' = EndOf(E, E.entries) /\ dig' = V(E).batch[E.entries + 1]
    /\ E.off = EndOf(E, E.entries) /\ E.dig = V(E).batch[E.entries + 1]
Sync == there' = TRUE /\ (Short \/ Run)
\* used wrongly: told so, and nothing happened to the index
Misused ==
    /\ E.exit = "fail" /\ UNCHANGED <<done, wm, dig, there>>
    /\ (there => E.idx = "same")
Step ==
    /\ HasEv /\ Consume
    /\ E.op = "run"
    /\ E.data = TRUE /\ E.others = << >>
    /\ IF E.kind = "sync" THEN Sync ELSE Misused
TNext == Step \/ (TBDone /\ UNCHANGED <<done, wm, dig, there>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
