------------------------------ MODULE LocTrace ------------------------------
(* Where an entry says its value is written: for every indexed scalar, inside the       *)
(* entry's record, exactly the text of one field of that record (white space around it  *)
(* aside), which decodes to the indexed value; no two entries share a field.             *)
EXTENDS JSONLIndex, TraceBase
VARIABLE done
vars == <<done, tid, l>>
Lines == Cfg.lines
Search == Range(Cfg.search)
TInit == TBInit /\ done = 0
Located(e) == e.in /\ e.dec = e.v /\ e.par = e.v
Loc(idx) ==
    LET us == UsesTo(Lines, Search, Len(Lines)) IN
    \A i \in 1..Len(idx) :
        IF IsScalar(idx[i].t)
        THEN LET occ == Occ(us, idx[i].n, idx[i].t)
                 got == {<<idx[i].es[k].v, idx[i].es[k].ro, idx[i].es[k].to, idx[i].es[k].tn>> : k \in 1..Len(idx[i].es)}
             IN /\ \A k \in 1..Len(idx[i].es) : Located(idx[i].es[k])
                /\ Cardinality(got) = Len(idx[i].es)
                /\ got \subseteq {<<x.v, x.rec[1], x.o, x.len>> : x \in occ}
        ELSE \* tokens: inside their record
             \A k \in 1..Len(idx[i].es) : idx[i].es[k].o >= idx[i].es[k].ro
Step ==
    /\ HasEv /\ Consume
    /\ E.op = "sync" /\ E.res = "ok" /\ Loc(E.idx) /\ done' = Len(Lines)
TNext == Step \/ (TBDone /\ UNCHANGED done)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
