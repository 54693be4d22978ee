---------------------------- MODULE ClientTrace ----------------------------
(* Histories of one client object of the library (src/): calls that overlap, with the     *)
(* requests they lead to answered in some order, some of them with a failure.              *)
EXTENDS Client, Query, FiniteSets, TraceBase
vars == <<calls, tid, l>>
Rec(r) == Range(Cfg.recs[r])
Ix(n, t) == LET i == CHOOSE i \in 1..Len(Cfg.ix) : Cfg.ix[i].n = n /\ Cfg.ix[i].t = t IN Cfg.ix[i].es
Cat == {Cfg.cat[i] : i \in 1..Len(Cfg.cat)}
Bytes(r) == SubSeq(Cfg.file, r[1] + 1, IF r[2] + 1 > Len(Cfg.file) THEN Len(Cfg.file) ELSE r[2] + 1)
\* the answer of a call
Want(e) ==
    CASE e.kind = "where" -> LET a == Answer(e.t, Ix(e.n, e.t), e.conds, e.dir, e.lim) IN
             [i \in 1..Len(a) |-> Project(Rec(a[i][2]), Range(e.sel))]
      [] e.kind = "fields" -> <<Cat>>
      [] e.kind = "search" -> Cfg.refs[e.ref].rows
      [] e.kind = "open" -> << >>
      \* the entries of a tree, from either end
      [] e.kind = "keys" -> Take(IF e.back THEN Reverse(Ix(e.n, e.t)) ELSE Ix(e.n, e.t), e.lim)
      [] e.kind = "bytes" -> [i \in 1..Len(e.ranges) |-> <<Bytes(e.ranges[i]), Len(Cfg.file)>>]
Near(a, b) == a - b \in -2..2
RowIs(e, i, w) ==
    CASE e.kind = "where" -> Range(e.rows[i]) = w
      [] e.kind = "fields" -> Range(e.rows[i]) = w /\ Len(e.rows[i]) = Cardinality(w)
      \* equal scores come in any order, and sums of millionths are rounded
      [] e.kind = "search" ->
            LET W == calls[e.c].want IN
            /\ Near(e.rows[i][2], w[2])
            /\ \E j \in 1..Len(W) : W[j][1] = e.rows[i][1] /\ Near(e.rows[i][2], W[j][2])
            /\ \A j \in 1..(i - 1) : e.rows[j][1] # e.rows[i][1]
      [] OTHER -> e.rows[i] = w
TInit == TBInit /\ CInit
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "begin" -> Begin(E.c, Want(E))
         [] E.op = "ask" -> UNCHANGED calls
         [] E.op = "answer" -> UNCHANGED calls
         [] E.op = "fail" -> Fault
         [] E.op = "done" -> LET S(i, w) == RowIs(E, i, w) IN Done(E.c, E.res = "ok", Len(E.rows), S)
         \* nothing is left to answer: no call is left waiting
         [] E.op = "end" -> Quiet /\ UNCHANGED calls
         [] OTHER -> FALSE
TNext == Step \/ (TBDone /\ UNCHANGED calls)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
