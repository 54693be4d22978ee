------------------------------ MODULE BulkTrace ------------------------------
(* Large data files: many records, long values, places far into the file.  The file is a    *)
(* pattern of lines repeated: what the first m lines put into the index, and where they end, *)
(* is arithmetic on the pattern, so the state is as exact as for a small file.  An index is  *)
(* given as its entries counted by shape: which line of the pattern they belong to, where in *)
(* it the value is, what it is (its first bytes and its length).                             *)
EXTENDS TraceBase, FiniteSets
VARIABLES done, wm, killed
vars == <<done, wm, killed, tid, l>>
P == Len(Cfg.pat)
RECURSIVE Pre(_)
Pre(i) == IF i = 0 THEN 0 ELSE Pre(i - 1) + Cfg.pat[i].len
End(m) == Cfg.head + (m \div P) * Pre(P) + Pre(m % P)
Min(a, b) == IF a < b THEN a ELSE b
Complete(vis) ==
    IF vis < Cfg.head THEN 0
    ELSE LET b == vis - Cfg.head
             k == (b \div Pre(P)) * P + Cardinality({i \in 1..P : Pre(i) <= b % Pre(P)})
         IN Min(k, Cfg.total)
\* the lines of the first m that repeat line r of the pattern
Times(r, m) == (m + P - r) \div P
Uses(r) == Cfg.pat[r].us
RECURSIVE Firsts(_, _, _, _)
Firsts(r, i, k, seen) ==
    IF r > k THEN << >>
    ELSE IF i > Len(Uses(r)) THEN Firsts(r + 1, 1, k, seen)
    ELSE LET x == <<Uses(r)[i].n, Uses(r)[i].t>> IN
         IF x \in seen THEN Firsts(r, i + 1, k, seen) ELSE <<x>> \o Firsts(r, i + 1, k, seen \cup {x})
Cat(m) == Firsts(1, 1, Min(m, P), {})
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.c * x.tot + Sum(S \ {x})
Expected(n, t, m) ==
    UNION {{[r |-> r, o |-> Uses(r)[i].o, len |-> Uses(r)[i].len, v |-> Uses(r)[i].v, vn |-> Uses(r)[i].vn, c |-> Times(r, m), d |-> Times(r, m)]
            : i \in {j \in 1..Len(Uses(r)) : Uses(r)[j].n = n /\ Uses(r)[j].t = t}} : r \in {x \in 1..P : Times(x, m) > 0}}
Totals(n, t, m) ==
    Sum(UNION {{[r |-> r, i |-> i, tot |-> Uses(r)[i].tot, c |-> Times(r, m)]
            : i \in {j \in 1..Len(Uses(r)) : Uses(r)[j].n = n /\ Uses(r)[j].t = t}} : r \in {x \in 1..P : Times(x, m) > 0}})
Holds(idx, m) ==
    LET cat == Cat(m) IN
    /\ Len(idx) = Len(cat)
    /\ \A i \in 1..Len(cat) :
         LET want == Expected(cat[i][1], cat[i][2], m) IN
         /\ idx[i].n = cat[i][1] /\ idx[i].t = cat[i][2]
         /\ Range(idx[i].gs) = want /\ Len(idx[i].gs) = Cardinality(want)
         /\ Cfg.tots /\ ~killed => idx[i].total = Totals(cat[i][1], cat[i][2], m)
TInit == TBInit /\ done = 0 /\ wm = 0 /\ killed = FALSE
Sync ==
    LET k == Complete(E.vis)
        short == E.vis < wm
        bad == E.ver = 1 /\ Cfg.bad > 0 /\ k >= Cfg.bad
        m == IF short THEN done ELSE IF bad THEN Cfg.bad - 1 ELSE k
    IN /\ E.res = (IF short \/ bad THEN "err" ELSE "ok")
       /\ E.entries = m /\ done' = m /\ wm' = E.off
       /\ IF short THEN E.off = wm
          ELSE IF m = 0 THEN E.off = 0 \/ (E.vis >= Cfg.head /\ E.off = Cfg.head) ELSE E.off = End(m)
       /\ Holds(E.idx, m)
\* Killed on the way: all of the first lines' entries are there and no others than those of the lines
\* it was to index, each once; what the file says of itself is as before or, all done, the new.
Partly(idx, m, k) ==
    LET cat == Cat(k)
    IN
    /\ Len(idx) <= Len(cat) /\ Len(idx) >= Len(Cat(m))
    /\ \A i \in 1..Len(idx) :
         LET all == Expected(cat[i][1], cat[i][2], k)
             old == Expected(cat[i][1], cat[i][2], m)
             gs == Range(idx[i].gs)
             Shape(x) == [r |-> x.r, o |-> x.o, len |-> x.len, v |-> x.v, vn |-> x.vn]
         IN
         /\ idx[i].n = cat[i][1] /\ idx[i].t = cat[i][2]
         /\ Len(idx[i].gs) = Cardinality({Shape(x) : x \in gs})
         /\ \A x \in gs : x.d = x.c /\ \E y \in all : Shape(x) = Shape(y) /\ x.c <= y.c
         /\ \A y \in old : \E x \in gs : Shape(x) = Shape(y) /\ y.c <= x.c
Kill ==
    LET k == Complete(E.vis)
        new == E.entries > done
        \* no record: the offset is before or behind the head
        ok == IF new THEN E.entries = k /\ E.off = End(k) /\ Partly(E.idx, k, k)
              ELSE E.entries = done /\ Partly(E.idx, done, k) /\ (E.off = wm \/ (done = 0 /\ E.off \in {0, Cfg.head}))
    IN /\ E.res = "ok" /\ (ok = TRUE)
       /\ killed' = TRUE /\ done' = E.entries /\ wm' = E.off
Step ==
    /\ HasEv /\ Consume
    /\ \/ E.op = "sync" /\ Sync /\ UNCHANGED killed
       \/ E.op = "kill" /\ Kill
TNext == Step \/ (TBDone /\ UNCHANGED <<done, wm, killed>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
