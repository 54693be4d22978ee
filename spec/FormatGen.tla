----------------------------- MODULE FormatGen -----------------------------
(* Small index files written as Format says: every sequence of a few records, with trees   *)
(* of small nodes, pages in any order and free pages in between.  TLC checks that reading    *)
(* gives back what was written, and prints the files, which are then given to the indexer.  *)
EXTENDS FormatFile, Json
CONSTANTS MaxRecs, LeafSizes, Fans, Emit
VARIABLES recs, leaf, fan, gap, search, last
vars == <<recs, leaf, fan, gap, search, last>>
One == <<63, 240, 0, 0, 0, 0, 0, 0>>
Two == <<64, 0, 0, 0, 0, 0, 0, 0>>
F(k, t, v, o, n, c, m) == [k |-> k, t |-> t, v |-> v, o |-> o, n |-> n, c |-> c, m |-> m]
Many == <<"k01", "k02", "k03", "k04", "k05", "k06", "k07", "k08", "k09", "k10", "k11", "k12", "k13", "k14", "k15", "k16", "k17">>
\* the records, as they are written: length and members (places from the beginning of the line)
Kind(i) ==
    CASE i = 1 -> [n |-> 7, f |-> <<F("a", 3, One, 5, 1, << >>, << >>)>>]
      [] i = 2 -> [n |-> 7, f |-> <<F("a", 3, Two, 5, 1, << >>, << >>)>>]
      [] i = 3 -> [n |-> 9, f |-> <<F("s", 0, <<120>>, 5, 3, <<120>>, << >>)>>]
      [] i = 4 -> [n |-> 15, f |-> <<F("a", 3, One, 5, 1, << >>, << >>), F("s", 0, <<121>>, 11, 3, <<121>>, << >>)>>]
      [] i = 5 -> [n |-> 19, f |-> <<F("n", 7, << >>, 5, 4, << >>, << >>), F("b", 6, <<1>>, 14, 4, << >>, << >>)>>]
      [] i = 6 -> [n |-> 23, f |-> <<F("o", 4, << >>, 5, 9, << >>, <<F("s", 0, <<120>>, 10, 3, <<120>>, << >>)>>), F("l", 5, << >>, 19, 3, << >>, << >>)>>]
      [] i = 7 -> [n |-> 188, f |-> [j \in 1..17 |-> F(Many[j], 7, << >>, 7 + 11 * (j - 1), 4, << >>, << >>)]]
\* the bytes of the names
Digit(d) == 48 + d
NB(n) == CASE n = "a" -> <<97>> [] n = "s" -> <<115>> [] n = "n" -> <<110>> [] n = "b" -> <<98>> [] n = "o" -> <<111>> [] n = "l" -> <<108>>
           [] n = "o.s" -> <<111, 46, 115>>
           [] OTHER -> LET i == CHOOSE i \in 1..17 : Many[i] = n IN <<107, Digit(i \div 10), Digit((i - 10 * (i \div 10)))>>
Shift(f, d) == [f EXCEPT !.o = @ + d, !.m = [j \in 1..Len(f.m) |-> [f.m[j] EXCEPT !.o = @ + d]]]
RECURSIVE LinesFrom(_, _)
LinesFrom(rs, at) ==
    IF rs = << >> THEN << >>
    ELSE LET k == Kind(Head(rs)) IN
         <<[o |-> at, n |-> k.n, f |-> [j \in 1..Len(k.f) |-> Shift(k.f[j], at)]]>> \o LinesFrom(Tail(rs), at + k.n + 1)
Lines == LinesFrom(recs, 0)
\* -- writing -----------------------------------------------------------------------
RECURSIVE LEE(_, _), UvE(_)
LEE(x, n) == IF n = 0 THEN << >> ELSE <<(x - 256 * (x \div 256))>> \o LEE(x \div 256, n - 1)
UvE(x) == IF x < 128 THEN <<x>> ELSE <<128 + (x - 128 * (x \div 128))>> \o UvE(x \div 128)
Zeros(n) == [i \in 1..n |-> 0]
Cat(ss) == Concat(ss)
Count(k, isleaf) == IF isleaf THEN LEE(65536 - k, 2) \o <<255, 255>> ELSE LEE(k, 4)
KeyE(e, w) == UvE(e.o) \o UvE(e.len) \o (IF w = 0 THEN << >> ELSE e.v)
LeafE(es, w) == Count(Len(es), TRUE) \o Cat([i \in 1..Len(es) |-> KeyE(es[i], w)])
                \o Cat([i \in 1..Len(es) |-> UvE(es[i].rec[1]) \o UvE(es[i].rec[2])])
InnerE(cs, w) == Count(Len(cs) - 1, FALSE) \o Cat([i \in 1..(Len(cs) - 1) |-> KeyE(cs[i + 1].first, w)])
                 \o Cat([i \in 1..Len(cs) |-> UvE(PageSize * cs[i].p)])
\* n things in groups of k, none of one alone
RECURSIVE Groups(_, _, _)
Groups(from, n, k) ==
    IF n - from + 1 <= k + 1 THEN <<<<from, n>>>>
    ELSE <<<<from, from + k - 1>>>> \o Groups(from + k, n, k)
RECURSIVE Leaves(_, _)
Leaves(es, k) == IF Len(es) <= k THEN <<es>> ELSE <<SubSeq(es, 1, k)>> \o Leaves(SubSeq(es, k + 1, Len(es)), k)
RECURSIVE Levels(_, _, _)
\* the nodes above the nodes cs ([p: page, first: first key]), from page next on: [nodes, root]
Levels(cs, w, next) ==
    IF Len(cs) = 1 THEN [nodes |-> << >>, root |-> cs[1].p]
    ELSE LET gs == Groups(1, Len(cs), fan)
             ns == [i \in 1..Len(gs) |-> InnerE(SubSeq(cs, gs[i][1], gs[i][2]), w)]
             up == Levels([i \in 1..Len(gs) |-> [p |-> next + i - 1, first |-> cs[gs[i][1]].first]], w, next + Len(gs))
         IN [nodes |-> ns \o up.nodes, root |-> up.root]
TreeE(es, w, next) ==
    IF es = << >> THEN [nodes |-> << >>, root |-> 0]
    ELSE LET ls == Leaves(es, leaf)
             up == Levels([i \in 1..Len(ls) |-> [p |-> next + i - 1, first |-> ls[i][1]]], w, next + Len(ls))
         IN [nodes |-> [i \in 1..Len(ls) |-> LeafE(ls[i], w)] \o up.nodes, root |-> up.root]
RECURSIVE Sorted(_)
Sorted(occ) ==
    IF occ = {} THEN << >>
    ELSE LET x == CHOOSE x \in occ : \A y \in occ \ {x} : Before(<<x.v, x.o, x.len>>, <<y.v, y.o, y.len>>)
         IN <<x>> \o Sorted(occ \ {x})
RECURSIVE TreesE(_, _, _, _)
\* one tree after the other from page next on: sequence of [nodes, root]
TreesE(us, cat, i, next) ==
    IF i > Len(cat) THEN << >>
    ELSE LET t == TreeE(Sorted(Occ(us, cat[i][1], cat[i][2])), WidthOf(cat[i][2]), next)
         IN <<t>> \o TreesE(us, cat, i + 1, next + Len(t.nodes))
SlotE(root, rlen, meta) == LEE(root, 8) \o LEE(rlen, 4) \o <<Len(meta)>> \o meta \o Zeros(252 - Len(meta))
FileMetaE(m) == <<1, 0>> \o LEE(Watermark(Lines, m), 8) \o UvE(m)
IndexMetaE(n, t, total) == LEE(t, 2) \o LEE(WidthOf(t), 2) \o LEE(Len(NB(n)), 2) \o NB(n) \o UvE(total)
None == [i \in 1..8 |-> 255]
\* the second meta page is either right after the first or the last page of the file
FileE ==
    LET m == Len(recs)
        us == UsesTo(Lines, search, m)
        cat == Firsts(us, {}, 1)
        two == Len(cat) + 1 > MaxSlots
        base == 2 + gap + (IF two /\ ~last THEN 1 ELSE 0)
        trees == TreesE(us, cat, 1, base)
        nodes == Cat([i \in 1..Len(trees) |-> trees[i].nodes])
        second == IF last THEN base + Len(nodes) ELSE 2 + gap
        slot(i) == IF i = 0 THEN SlotE(0, 0, FileMetaE(m))
                   ELSE SlotE(PageSize * trees[i].root, IF trees[i].root = 0 THEN 0 ELSE 17,
                              IndexMetaE(cat[i][1], cat[i][2], SumSet(Occ(us, cat[i][1], cat[i][2]))))
        meta1 == (IF two THEN LEE(PageSize * second, 8) ELSE None) \o <<IF two THEN MaxSlots ELSE Len(cat) + 1>>
                 \o Cat([i \in 1..(IF two THEN MaxSlots ELSE Len(cat) + 1) |-> slot(i - 1)])
        meta2 == None \o <<Len(cat) + 1 - MaxSlots>> \o Cat([i \in 1..(Len(cat) + 1 - MaxSlots) |-> slot(i + MaxSlots - 1)])
        dir == Cat([i \in 1..gap |-> LEE(PageSize * (1 + gap - i + 1), 8)])
    IN <<dir, meta1>> \o [i \in 1..gap |-> <<i, 1, 2, 3>>]
       \o (IF two /\ ~last THEN <<meta2>> ELSE << >>) \o nodes \o (IF two /\ last THEN <<meta2>> ELSE << >>)
Init == /\ recs \in UNION {[1..n -> IF n > 3 THEN {1, 2, 4} ELSE 1..7] : n \in 0..MaxRecs}
        /\ leaf \in LeafSizes /\ fan \in Fans
        /\ \E z \in {<<0, {}, FALSE>>, <<2, {"s", "o.s"}, TRUE>>} : gap = z[1] /\ search = z[2] /\ last = z[3]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Right == File(FileE, Lines, search, Len(recs), NB)
Printed == Emit => PrintT("TR " \o ToJson([recs |-> recs, search |-> search, pages |-> FileE]))
=============================================================================
