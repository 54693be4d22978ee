----------------------------- MODULE FormatFile -----------------------------
(* What a whole index file of JSON lines holds, byte by byte.                             *)
EXTENDS JSONLIndex, Format, TLC
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLess(a, b, i + 1)
\* keys as <<value, offset, length>>
Before(a, b) ==
    IF a[1] # b[1] THEN LexLess(a[1], b[1], 1)
    ELSE IF a[2] # b[2] THEN a[2] < b[2]
    ELSE a[3] < b[3]
\* pages, used each for one thing, are all pages of the file
Partition(pages, used) == Len(used) = Len(pages) /\ {used[i] : i \in 1..Len(used)} = 0..(Len(pages) - 1)
\* a tree holds exactly the occurrences, in order, with separators that separate
TreeHolds(tr, w, occ) ==
    LET at == {x.o : x \in occ}
        val == [o \in at |-> (CHOOSE x \in occ : x.o = o).v]
        V(k) == IF w > 0 THEN k.v ELSE IF k.o \in at THEN val[k.o] ELSE << >>
        Key(k) == <<V(k), k.o, k.n>>
        es == tr.es
        Tup(e) == <<V(e), e.o, e.n, e.ro, e.rn>>
        got == {Tup(es[i]) : i \in 1..Len(es)}
    IN /\ tr.ok
       /\ Len(es) = Cardinality(occ) /\ Cardinality(got) = Len(es)
       /\ got = {<<x.v, x.o, x.len, x.rec[1], x.rec[2]>> : x \in occ}
       /\ \A i \in 1..(Len(es) - 1) : Before(Key(es[i]), Key(es[i + 1]))
       /\ \A i \in 1..Len(tr.seps) :
            LET s == tr.seps[i] IN
            /\ s.at >= 1 /\ s.at < Len(es)
            /\ Before(Key(es[s.at]), Key(s.k)) /\ ~Before(Key(es[s.at + 1]), Key(s.k))
SlotsOk(pages, metas) ==
    /\ \A i \in 1..Len(metas) : metas[i] > 0
    /\ \A i \in 1..Len(metas) : ByteAt(pages[metas[i] + 1], 8) = MaxSlots \/ (i = Len(metas) /\ ByteAt(pages[metas[i] + 1], 8) \in 1..MaxSlots)
AllSlots(pages, metas) == Concat([i \in 1..Len(metas) |-> Slots(pages[metas[i] + 1])])
\* the file holds the first m lines; NB gives the bytes of a name
File(pages, lines, search, m, NB(_)) ==
    LET us == TLCEval(UsesTo(lines, search, m))
        cat == TLCEval(Firsts(us, {}, 1))
        metas == TLCEval(MetaPages(pages, 1, Len(pages)))
    IN /\ SlotsOk(pages, metas)
       /\ LET slots == TLCEval(AllSlots(pages, metas))
              trees == TLCEval([i \in 1..Len(cat) |->
                           IF slots[i + 1].rlen = 0 THEN [Bad EXCEPT !.ok = TRUE]
                           ELSE Tree(pages, PageOf(slots[i + 1].root, Len(pages)), WidthOf(cat[i][2]), 8)])
          IN /\ Len(slots) = Len(cat) + 1
             /\ FileRec(slots[1].meta) = [version |-> 1, format |-> 0, off |-> Watermark(lines, m), entries |-> m]
             /\ \A i \in 1..Len(cat) :
                  LET occ == Occ(us, cat[i][1], cat[i][2]) IN
                  /\ Len(slots[i + 1].meta) >= 7
                  /\ IndexRec(slots[i + 1].meta) = [t |-> cat[i][2], w |-> WidthOf(cat[i][2]), n |-> NB(cat[i][1]),
                                                    total |-> SumSet(occ), ok |-> TRUE]
                  /\ TreeHolds(trees[i], WidthOf(cat[i][2]), occ)
             /\ Partition(pages, <<0>> \o metas \o Concat([i \in 1..Len(trees) |-> trees[i].pages]) \o Free(pages))
\* the one vector tree of a file
Vectors(pages, vs) ==
    LET metas == MetaPages(pages, 1, Len(pages)) IN
    /\ SlotsOk(pages, metas)
    /\ LET slots == AllSlots(pages, metas)
           tr == TLCEval(IF slots[1].rlen = 0 THEN [Bad EXCEPT !.ok = TRUE]
                         ELSE VTree(pages, PageOf(slots[1].root, Len(pages)), 8))
       IN /\ tr.ok /\ Len(slots) = 1
          /\ tr.es = vs
          /\ \A i \in 1..(Len(vs) - 1) : vs[i].id < vs[i + 1].id
          /\ \A i \in 1..Len(tr.seps) :
               LET s == tr.seps[i] IN
               /\ s.at >= 1 /\ s.at < Len(vs)
               /\ vs[s.at].id < s.k.id /\ s.k.id <= vs[s.at + 1].id
          /\ Partition(pages, <<0>> \o metas \o tr.pages \o Free(pages))
=============================================================================
