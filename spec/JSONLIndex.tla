----------------------------- MODULE JSONLIndex -----------------------------
(* What an index of a JSONL data file contains.  The data file is a sequence of        *)
(* records (lines); a record is an object given as the sequence of its members         *)
(* [k: key, t: type, v: bytes of the value, o, n: where the value is written, c: code   *)
(* points of a string, m: members of an object].  The index after the first m records   *)
(* have been indexed is a function of these records alone.                             *)
EXTENDS Integers, Sequences, FiniteSets, NGram
\* field types: 0 string 3 number 4 object 5 array 6 boolean 7 null 8 trigram 9 bigram 10 unigram
IsScalar(t) == t \in {0, 3, 6, 7}
Gram(t) == IF t = 10 THEN 1 ELSE IF t = 9 THEN 2 ELSE 3
RECURSIVE Flat(_, _, _)
\* the fields of an object in the order they are written; objects are entered, arrays are not
Flat(ms, prefix, i) ==
    IF i > Len(ms) THEN << >>
    ELSE LET f == ms[i]
             name == prefix \o f.k
         IN <<[n |-> name, t |-> f.t, v |-> f.v, o |-> f.o, len |-> f.n, c |-> f.c, sl |-> Len(f.v)]>>
            \o (IF f.t = 4 THEN Flat(f.m, name \o ".", 1) ELSE << >>)
            \o Flat(ms, prefix, i + 1)
\* what one field of record r puts into the index of (name, type): entries [v, o, len] and its part of the total
GramEntries(f, t) == LET tk == Tokens(f.c, Gram(t)) IN
    [i \in 1..Len(tk) |-> [v |-> tk[i].w, o |-> f.o + tk[i].o, len |-> f.sl, tot |-> tk[i].n]]
Entries(f, t) ==
    CASE t \in {0, 3} -> <<[v |-> f.v, o |-> f.o, len |-> f.len, tot |-> f.len]>>
      [] t = 6 -> <<[v |-> f.v, o |-> f.o, len |-> f.len, tot |-> 1]>>
      [] t = 7 -> <<[v |-> f.v, o |-> f.o, len |-> f.len, tot |-> 0]>>
      [] t \in {4, 5} -> << >>
      [] OTHER -> GramEntries(f, t)
TypesOf(f, search) == IF f.t = 0 /\ f.n \in search THEN <<0, 10, 9, 8>> ELSE <<f.t>>
RECURSIVE UsesOf(_, _, _, _)
\* (name, type) pairs in order of use, with their entries: sequence of [n, t, rec, es]
UsesOf(fs, search, rec, i) ==
    IF i > Len(fs) THEN << >>
    ELSE LET ts == TypesOf(fs[i], search)
         IN [j \in 1..Len(ts) |-> [n |-> fs[i].n, t |-> ts[j], rec |-> rec, es |-> Entries(fs[i], ts[j])]]
            \o UsesOf(fs, search, rec, i + 1)
RECURSIVE UsesTo(_, _, _)
UsesTo(lines, search, m) ==
    IF m = 0 THEN << >>
    ELSE UsesTo(lines, search, m - 1)
         \o UsesOf(Flat(lines[m].f, "", 1), search, <<lines[m].o, lines[m].n>>, 1)
\* the catalogue: (name, type) in order of first use
RECURSIVE Firsts(_, _, _)
Firsts(us, seen, i) ==
    IF i > Len(us) THEN << >>
    ELSE IF <<us[i].n, us[i].t>> \in seen THEN Firsts(us, seen, i + 1)
    ELSE <<<<us[i].n, us[i].t>>>> \o Firsts(us, seen \cup {<<us[i].n, us[i].t>>}, i + 1)
\* all entries of one index as a set of occurrences (u: which use, j: which entry of it)
Occ(us, n, t) == UNION {{[v |-> us[u].es[j].v, rec |-> us[u].rec, o |-> us[u].es[j].o, len |-> us[u].es[j].len,
                           tot |-> us[u].es[j].tot, u |-> u, j |-> j] : j \in 1..Len(us[u].es)}
                       : u \in {x \in 1..Len(us) : us[x].n = n /\ us[x].t = t}}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.tot + SumSet(S \ {x})
WidthOf(t) == CASE t = 3 -> 9 [] t = 6 -> 2 [] t = 7 -> 1 [] t = 8 -> 4 [] t = 9 -> 3 [] t = 10 -> 2 [] OTHER -> 0
\* where the indexed part of the data ends after m records
Watermark(lines, m) == IF m = 0 THEN 0 ELSE lines[m].o + lines[m].n + 1
=============================================================================
