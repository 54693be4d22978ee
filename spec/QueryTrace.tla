----------------------------- MODULE QueryTrace -----------------------------
(* Traces of the client library (src/) querying index files the Go indexer wrote.      *)
EXTENDS Query, FiniteSets, TraceBase
VARIABLE ready
vars == <<ready, tid, l>>
Cat == {Cfg.cat[i] : i \in 1..Len(Cfg.cat)}
Names == {c[1] : c \in Cat}
Rec(r) == Range(Cfg.recs[r])
Ix(n, t) == LET i == CHOOSE i \in 1..Len(Cfg.ix) : Cfg.ix[i].n = n /\ Cfg.ix[i].t = t IN Cfg.ix[i].es
\* what the generator claims about the file is in order
Sane == \A i \in 1..Len(Cfg.ix) : InOrder(Cfg.ix[i].t, Cfg.ix[i].es)
TInit == TBInit /\ ready = FALSE
Asked(e) == Answer(e.t, Ix(e.n, e.t), e.conds, e.dir, e.lim)
\* a query is refused when it names no field of the file, a type the field never has, fields of two names,
\* another comparison, an order on another field or an unknown field to select
Refused(e) ==
    \/ e.n \notin Names
    \/ <<e.n, e.t>> \notin Cat
    \/ \E i \in 1..Len(e.conds) : e.conds[i].cmp \notin {"<", "<=", "==", ">=", ">"}
    \/ e.other # ""
    \/ \E i \in 1..Len(e.ord) : e.ord[i] # e.n
    \/ Range(e.dirs) \ {"ASC", "DESC"} # {}
    \/ e.nan
    \/ Range(e.sel) \ Names # {}
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "open" ->
              /\ (Sane = TRUE) /\ ready' = TRUE
              /\ E.res = "ok" /\ E.entries = Cfg.n /\ E.off = Cfg.off
         [] E.op = "fields" ->
              /\ ready /\ UNCHANGED ready /\ E.res = "ok"
              \* every field once, with every type it has once
              /\ {E.fields[i][1] : i \in 1..Len(E.fields)} = Names /\ Len(E.fields) = Cardinality(Names)
              /\ \A i \in 1..Len(E.fields) :
                   LET ts == E.fields[i][2] IN
                   /\ Range(ts) = {c[2] : c \in {x \in Cat : x[1] = E.fields[i][1]}}
                   /\ Len(ts) = Cardinality(Range(ts))
         [] E.op = "where" ->
              /\ ready /\ UNCHANGED ready
              /\ E.kept
              /\ IF Refused(E) THEN E.res = "err"
                 ELSE /\ E.res = "ok"
                      /\ LET a == Asked(E) IN
                         /\ Len(E.rows) = Len(a)
                         /\ \A i \in 1..Len(a) : Range(E.rows[i]) = Project(Rec(a[i][2]), Range(E.sel))
         [] OTHER -> FALSE
TNext == Step \/ (TBDone /\ UNCHANGED ready)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
