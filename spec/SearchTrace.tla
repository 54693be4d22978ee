----------------------------- MODULE SearchTrace -----------------------------
(* Traces of the client's text search over index files the Go indexer wrote.            *)
EXTENDS Search, TraceBase
VARIABLES toks             \* n-grams of every document, by field and length
vars == <<toks, tid, l>>
Docs == Cfg.docs
Fields == 1..Len(Cfg.fields)
ND == Len(Docs[1])
TInit == TBInit /\ toks = << >>
Abs(x) == IF x < 0 THEN -x ELSE x
\* the weight of a word held tf times by a record, when nt records hold it (in millionths)
W(nt, tf) == Cfg.w[nt][tf]
Bad(e) == e.n \notin Range(Cfg.searchable) \/ e.min < 1 \/ e.max > 3 \/ e.min > e.max
Answers(e) ==
    LET fl == CHOOSE i \in Fields : Cfg.fields[i] = e.n
        q == Grams(e.cps, e.min, e.max)
        tf == [i \in 1..Len(q) |-> [r \in 1..ND |-> Count(toks[fl][Len(q[i].w)][r], q[i].w)]]
        nt == [i \in 1..Len(q) |-> Cardinality({r \in 1..ND : tf[i][r] > 0})]
        hits == {r \in 1..ND : \E i \in 1..Len(q) : tf[i][r] > 0}
        score == [r \in hits |-> Sum([i \in 1..Len(q) |-> IF tf[i][r] = 0 THEN 0 ELSE W(nt[i], tf[i][r])], Len(q))]
        got == [i \in 1..Len(e.hits) |-> e.hits[i][1]]
        n == Cardinality(hits)
    IN /\ Len(e.hits) = IF e.lim < 0 \/ e.lim > n THEN n ELSE e.lim
       /\ Range(got) \subseteq hits /\ Cardinality(Range(got)) = Len(got)
       \* a limit leaves out the worst
       /\ \A r \in hits \ Range(got) : \A i \in 1..Len(e.hits) : score[r] <= e.hits[i][2] + 2 * Len(q) + 2
       /\ \A i \in 1..Len(e.hits) : Abs(e.hits[i][2] - score[got[i]]) <= Len(q) + 2
       \* the best first
       /\ \A i \in 1..(Len(e.hits) - 1) : e.hits[i][2] >= e.hits[i + 1][2]
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "open" ->
              toks' = [f \in Fields |-> [g \in 1..3 |-> [r \in 1..ND |-> Tokens(Docs[f][r], g)]]]
         [] E.op = "search" ->
              /\ UNCHANGED toks
              /\ E.kept        \* the query is left as it was given
              /\ IF Bad(E) THEN E.res = "err" \/ (E.res = "ok" /\ E.lim = 0 /\ E.hits = << >>) ELSE E.res = "ok" /\ (Answers(E) = TRUE)
         [] OTHER -> FALSE
TNext == Step \/ (TBDone /\ UNCHANGED toks)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
