----------------------------- MODULE NGramTrace -----------------------------
(* Phrases split by the indexer's tokenizer (places included) and by the client's (types  *)
(* included, the shorter n-grams first), and tokens shuffled by either.                     *)
EXTENDS NGram, FiniteSets, TraceBase
VARIABLE n
vars == <<n, tid, l>>
TInit == TBInit /\ n = 0
RECURSIVE ByLength(_, _, _)
ByLength(cps, a, b) ==
    IF a > b THEN << >>
    ELSE LET ts == Tokens(cps, a)
         IN [i \in 1..Len(ts) |-> [w |-> ts[i].w, b |-> ts[i].w, t |-> 11 - a]] \o ByLength(cps, a + 1, b)
Shuffled(e) ==
    /\ e.of2 = e.of /\ Len(e.toks) = Len(e.of)
    /\ \A x \in Range(e.of) \cup Range(e.toks) :
         Cardinality({i \in 1..Len(e.of) : e.of[i] = x}) = Cardinality({i \in 1..Len(e.toks) : e.toks[i] = x})
Step ==
    /\ HasEv /\ Consume /\ n' = n + 1 /\ E.res = "ok"
    /\ CASE E.op = "split" -> E.toks = Tokens(E.cps, E.g)
         [] E.op = "tokens" -> E.toks = ByLength(E.cps, E.min, E.max)
         [] E.op = "shuffle" -> (Shuffled(E) = TRUE)
         [] OTHER -> FALSE
TNext == Step \/ (TBDone /\ UNCHANGED n)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
