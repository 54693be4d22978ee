------------------------------- MODULE Search -------------------------------
(* What a text search returns.  The documents are the records' values of a search field, *)
(* given by the code points of their compatibility decomposition (<< >> when a record    *)
(* has no such value).  A query is split into n-grams of the lengths asked for; every    *)
(* record that holds one of them is an answer, once; its score is the sum over the       *)
(* query's n-grams of a weight of how often it holds it and how many records do.         *)
EXTENDS Integers, Sequences, FiniteSets, NGram
RECURSIVE Grams(_, _, _)
Grams(cps, min, max) == IF min > max THEN << >> ELSE Tokens(cps, min) \o Grams(cps, min + 1, max)
\* how often word w is an n-gram of a document, given its n-grams of that length
Count(toks, w) == Cardinality({i \in 1..Len(toks) : toks[i].w = w})
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
=============================================================================
