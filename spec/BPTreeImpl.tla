----------------------------- MODULE BPTreeImpl -----------------------------
(* The insertion algorithm of the B+ tree, page write by page write.  Nodes hold  *)
(* at most Order keys; a full node splits in the middle: both halves go to new     *)
(* pages, the parent gains the separator, a split root gets a new root page, and    *)
(* at last the pages of the split nodes are freed.  TLC checks, for every insertion *)
(* order, that whenever no insertion is in progress the stored tree is well formed  *)
(* and holds exactly the inserted keys; that every page is in the tree or free; and *)
(* that at every moment in between (a crash, a full disk) a reader finds the tree   *)
(* of before or after the insertion.                                              *)
EXTENDS BPTree
CONSTANTS N, Order, Crashes
VARIABLES page,      \* page number -> node as stored
          root,      \* root page, 0 if none
          free,      \* free pages, the next to be used first
          cr,        \* how often an insertion stopped halfway: a crash, a full disk
          job        \* the insertion in progress: path of pending node images
ivars == <<map, page, root, free, cr, job>>

Idle == [ph |-> "idle"]
Node(leaf, ks, kids, vs) == [leaf |-> leaf, ks |-> ks, kids |-> kids, vs |-> vs]
ImplInit == BInit /\ page = << >> /\ root = 0 /\ free = << >> /\ cr = 0 /\ job = Idle

Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* position of the first key >= k
Pos(ks, k) == IF \E i \in 1..Len(ks) : ks[i] >= k THEN CHOOSE i \in 1..Len(ks) : ks[i] >= k /\ \A j \in 1..(i - 1) : ks[j] < k
              ELSE Len(ks) + 1
RECURSIVE Path(_, _)
\* leaf first: pairs <<page, child index>>
Path(p, k) ==
    LET nd == page[p] IN
    IF nd.leaf THEN << <<p, Pos(nd.ks, k)>> >>
    ELSE LET i0 == Pos(nd.ks, k)
             i == IF i0 <= Len(nd.ks) /\ nd.ks[i0] = k THEN i0 + 1 ELSE i0
         IN Append(Path(nd.kids[i], k), <<p, i>>)

\* a new page: a free one, or at the end of the file
NextPage == IF free # << >> THEN Head(free) ELSE Len(page) + 1
Alloc(nd) == /\ page' = IF free # << >> THEN [page EXCEPT ![Head(free)] = nd] ELSE Append(page, nd)
             /\ free' = IF free # << >> THEN Tail(free) ELSE free

Begin(k) ==
    /\ job = Idle /\ ~Has(k)
    /\ IF root = 0
       THEN /\ Alloc(Node(TRUE, <<k>>, << >>, <<k>>))
            /\ job' = [ph |-> "setroot", r |-> NextPage, k |-> k, old |-> << >>]
       ELSE LET path == Path(root, k)
                p == path[1][1] i == path[1][2] nd == page[p]
                img == Node(TRUE, Ins(nd.ks, i, k), << >>, Ins(nd.vs, i, k))
            IN /\ job' = [ph |-> "node", k |-> k, path |-> path, at |-> 1, img |-> img, old |-> << >>]
               /\ UNCHANGED <<page, free>>
    /\ UNCHANGED <<map, root>>

\* the new tree is in place: the pages of the split nodes are freed, one write each
Finish(k) == map' = [x \in Keys \cup {k} |-> x]
After == IF job.old = << >> THEN Idle ELSE [ph |-> "free", old |-> job.old]

\* the pending node fits: write it in place, done
WriteNode ==
    /\ job.ph = "node" /\ Len(job.img.ks) <= Order
    /\ page' = [page EXCEPT ![job.path[job.at][1]] = job.img]
    /\ Finish(job.k) /\ job' = After /\ UNCHANGED <<root, free>>

\* it does not: first the right half goes to a new page
SplitRight ==
    /\ job.ph = "node" /\ Len(job.img.ks) > Order
    /\ LET n == job.img  mid == (Len(n.ks) \div 2) + 1
           right == IF n.leaf THEN Node(TRUE, SubSeq(n.ks, mid, Len(n.ks)), << >>, SubSeq(n.vs, mid, Len(n.vs)))
                    ELSE Node(FALSE, SubSeq(n.ks, mid + 1, Len(n.ks)), SubSeq(n.kids, mid + 1, Len(n.kids)), << >>)
       IN /\ Alloc(right)
          /\ job' = [ph |-> "left", k |-> job.k, path |-> job.path, at |-> job.at, img |-> n, old |-> job.old, m |-> NextPage]
    /\ UNCHANGED <<map, root>>

\* then the left half to another
SplitLeft ==
    /\ job.ph = "left"
    /\ LET n == job.img  mid == (Len(n.ks) \div 2) + 1
           left == IF n.leaf THEN Node(TRUE, SubSeq(n.ks, 1, mid - 1), << >>, SubSeq(n.vs, 1, mid - 1))
                   ELSE Node(FALSE, SubSeq(n.ks, 1, mid - 1), SubSeq(n.kids, 1, mid), << >>)
           m == job.m  p == NextPage  old == Append(job.old, job.path[job.at][1])
       IN /\ Alloc(left)
          /\ IF job.at < Len(job.path)
             THEN LET pp == job.path[job.at + 1][1] pi == job.path[job.at + 1][2] pn == page[pp]
                  IN job' = [ph |-> "node", k |-> job.k, path |-> job.path, at |-> job.at + 1, old |-> old,
                             img |-> Node(FALSE, Ins(pn.ks, pi, n.ks[mid]), Ins([pn.kids EXCEPT ![pi] = p], pi + 1, m), << >>)]
             ELSE job' = [ph |-> "newroot", k |-> job.k, old |-> old, node |-> Node(FALSE, <<n.ks[mid]>>, <<p, m>>, << >>)]
    /\ UNCHANGED <<map, root>>

NewRoot ==
    /\ job.ph = "newroot"
    /\ Alloc(job.node)
    /\ job' = [ph |-> "setroot", r |-> NextPage, k |-> job.k, old |-> job.old]
    /\ UNCHANGED <<map, root>>

SetRoot ==
    /\ job.ph = "setroot"
    /\ root' = job.r /\ Finish(job.k) /\ job' = After /\ UNCHANGED <<page, free>>

Free ==
    /\ job.ph = "free"
    /\ free' = Append(free, Head(job.old))
    /\ job' = IF Len(job.old) = 1 THEN Idle ELSE [job EXCEPT !.old = Tail(job.old)]
    /\ UNCHANGED <<map, page, root>>

Stop == job # Idle /\ cr < Crashes /\ job' = Idle /\ cr' = cr + 1 /\ UNCHANGED <<map, page, root, free>>
Next ==
    \/ /\ UNCHANGED cr
       /\ (\E k \in 1..N : Begin(k)) \/ (job # Idle /\ (WriteNode \/ SplitRight \/ SplitLeft \/ NewRoot \/ SetRoot \/ Free))
    \/ Stop
Spec == ImplInit /\ [][Next]_ivars

\* the stored tree in the form of BPTree!WellFormed: preorder from the root
RECURSIVE Reach(_)
Reach(p) == IF page[p].leaf THEN {p} ELSE {p} \cup UNION {Reach(page[p].kids[j]) : j \in 1..Len(page[p].kids)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == MinOf(S) IN <<x>> \o SeqOf(S \ {x})
Stored ==
    IF root = 0 THEN << >>
    ELSE LET ids == <<root>> \o SeqOf(Reach(root) \ {root})
             at(p) == CHOOSE i \in 1..Len(ids) : ids[i] = p
         IN [i \in 1..Len(ids) |->
               LET nd == page[ids[i]] IN
               [id |-> ids[i], leaf |-> nd.leaf, ks |-> nd.ks, vs |-> nd.vs,
                kids |-> [j \in 1..Len(nd.kids) |-> at(nd.kids[j])]]]
Quiet == job = Idle => (WellFormed(Stored, N) /\ Holds(Stored, map))
NoLeak == job = Idle /\ cr = 0 => (Len(Stored) + Len(free) = Len(page) /\ Len(free) <= 4)
Fits == \A p \in 1..Len(page) : Len(page[p].ks) <= Order
FreeUnused == root # 0 => \A i \in 1..Len(free) : free[i] \notin Reach(root)

\* what a reader finds at any moment, were the insertion to stop there for good: the
\* tree of before it or after it, whole
Crashed == WellFormed(Stored, N) /\ Holds(Stored, map)
=============================================================================
