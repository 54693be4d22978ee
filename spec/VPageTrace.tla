------------------------------ MODULE VPageTrace ------------------------------
(* The vector page manager: every vector added is stored under its id, with one record of   *)
(* its friends; what is refused is stored nowhere.                                         *)
EXTENDS FiniteSets, TraceBase
VARIABLES pts, recs
vars == <<pts, recs, tid, l>>
TInit == TBInit /\ pts = <<>> /\ recs = <<>>
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "add" /\ Len(E.p) = Cfg.dim ->
              E.res = "ok" /\ pts' = Append(pts, E.p) /\ recs' = Append(recs, E.own)
         [] E.op = "add" /\ Len(E.p) # Cfg.dim -> E.res = "err" /\ UNCHANGED <<pts, recs>>
         [] E.op = "stored" ->
              /\ E.res = "ok" /\ UNCHANGED <<pts, recs>>
              \* the entry point (id 0) is not added through the manager
              /\ Len(E.vs) = Len(pts) + 2
              /\ \A i \in 1..Len(E.vs) : LET v == E.vs[i] IN
                    IF v.id \in 1..Len(pts) THEN v.res = "ok" /\ v.p = pts[v.id] ELSE v.p = <<>>
              /\ Len(E.fs) = Len(recs)
              /\ \A i \in 1..Len(recs) : Count(E.fs, recs[i]) = Count(recs, recs[i])
TNext == Step \/ (TBDone /\ UNCHANGED <<pts, recs>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
