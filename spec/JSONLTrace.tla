----------------------------- MODULE JSONLTrace -----------------------------
EXTENDS JSONLIndex, TraceBase
VARIABLE done              \* records indexed
vars == <<done, tid, l>>
Lines == Cfg.lines
Search == Range(Cfg.search)
TInit == TBInit /\ done = 0
\* a line counts once it is written to its end
Complete(vis) == Cardinality({i \in 1..Len(Lines) : Lines[i].o + Lines[i].n + 1 <= vis})
Pair(e) == <<e.v, <<e.ro, e.rn>>>>
\* the entries are exactly the occurrences: same (value, record) pairs, each as often
SameBag(es, occ) ==
    /\ Len(es) = Cardinality(occ)
    /\ LET got == {Pair(es[i]) : i \in 1..Len(es)}
           want == {<<x.v, x.rec>> : x \in occ}
       IN /\ got = want
          \* as many distinct pairs as entries: nothing to count
          /\ Cardinality(got) = Len(es) \/
             \A p \in want : Cardinality({i \in 1..Len(es) : Pair(es[i]) = p}) = Cardinality({x \in occ : <<x.v, x.rec>> = p})
Holds(idx, m) ==
    LET us == UsesTo(Lines, Search, m)
        cat == Firsts(us, {}, 1)
    IN /\ Len(idx) = Len(cat)
       /\ \A i \in 1..Len(cat) :
            LET occ == Occ(us, cat[i][1], cat[i][2]) IN
            /\ idx[i].n = cat[i][1] /\ idx[i].t = cat[i][2]
            /\ idx[i].w = WidthOf(cat[i][2])
            /\ SameBag(idx[i].es, occ)
            /\ idx[i].total = SumSet(occ)
Found(us, of) ==
    LET occ == TLCEval(Occ(us, of.n, of.t)) IN
    \A i \in 1..Len(of.qs) :
        LET q == of.qs[i]
            w == {x \in occ : x.v = q.v}
        IN /\ q.res = "ok"
           /\ Len(q.recs) = Cardinality(w)
           /\ Range(q.recs) = {x.rec : x \in w}
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "sync" ->
              /\ E.res = "ok"
              /\ done' = Complete(E.vis)
              /\ E.off = Watermark(Lines, done') /\ E.entries = done'
              /\ Holds(E.idx, done')
         [] E.op = "look" ->
              /\ LET us == TLCEval(UsesTo(Lines, Search, done)) IN
                 \A i \in 1..Len(E.of) : Found(us, E.of[i])
              /\ UNCHANGED done
TNext == Step \/ (TBDone /\ UNCHANGED done)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
