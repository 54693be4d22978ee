------------------------------ MODULE CSVTrace ------------------------------
(* Synchronisations of a CSV data file in steps, with lines that are refused and repaired, *)
(* and storage that fails: the index is a function of the complete lines before the first   *)
(* bad one.                                                                                  *)
EXTENDS CSV, TraceBase
VARIABLES done, ver, wm, cells, us
vars == <<done, ver, wm, cells, us, tid, l>>
\* nothing but the header read: the offset may still be 0
TInit == TBInit /\ done = 0 /\ ver = 1 /\ wm = 0 /\ us = << >>
         /\ cells = [v \in DOMAIN Cfg.vers |-> TLCEval(AllCells(Cfg.vers[v]))]
Lines == Cfg.vers[E.ver]
Cs == cells[E.ver]
Nums == Range(Cfg.nums)
Complete == Cardinality({i \in 1..Len(Lines) : Lines[i].o + Len(Lines[i].s) + 1 <= E.vis})
FirstBad(k) == LET B == {i \in 2..k : BadRecord(Cs, i)} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
Ents(es) == {[v |-> es[i].v, o |-> es[i].o, n |-> es[i].n, rec |-> <<es[i].ro, es[i].rn>>] : i \in 1..Len(es)}
Holds(idx, u) ==
    LET cat == Firsts(u, {}, 1)
    IN /\ Len(idx) = Len(cat)
       /\ \A i \in 1..Len(cat) :
            LET occ == Occ(u, cat[i][1], cat[i][2]) IN
            /\ idx[i].n = cat[i][1] /\ idx[i].t = cat[i][2]
            /\ Len(idx[i].es) = Cardinality(occ)
            /\ Ents(idx[i].es) = {[v |-> x.v, o |-> x.o, n |-> x.len, rec |-> x.rec] : x \in occ}
Sync ==
    LET k == Complete
        f == IF k = 0 \/ BadHeader(Cs) THEN 0 ELSE FirstBad(k)
        short == E.vis < wm
        m == IF short THEN done ELSE IF k = 0 \/ BadHeader(Cs) THEN 0 ELSE IF f = 0 THEN k - 1 ELSE f - 2
    IN /\ E.res = (IF short \/ (k > 0 /\ BadHeader(Cs)) \/ f # 0 THEN "err" ELSE "ok")
       /\ done' = m /\ ver' = E.ver /\ wm' = E.off
       /\ E.entries = m
       /\ IF short THEN E.off = wm
          ELSE IF m = 0 THEN E.off = 0 \/ (k > 0 /\ E.off = CsvEnd(Lines, 0)) ELSE E.off = CsvEnd(Lines, m)
       /\ us' = TLCEval(CsvUsesTo(Lines, Cs, m, Nums)) /\ UNCHANGED cells
       /\ Holds(E.idx, us')
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "sync" -> Sync
         [] E.op = "fail" -> E.res \in {"ok", "err"} /\ UNCHANGED <<done, ver, wm, cells, us>>
         [] E.op = "look" ->
              /\ E.res = "ok"
              /\ LET w == {x \in Occ(us, E.n, E.t) : x.v = E.v} IN
                 /\ Len(E.recs) = Cardinality(w)
                 /\ {E.recs[i] : i \in 1..Len(E.recs)} = {x.rec : x \in w}
              /\ UNCHANGED <<done, ver, wm, cells, us>>
         [] OTHER -> FALSE
TNext == Step \/ (TBDone /\ UNCHANGED <<done, ver, wm, cells, us>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
