---------------------------- MODULE MetaListImpl ----------------------------
(* How the list is stored: pages of PerPage slots with a slot count and a pointer to *)
(* the next page.  Handles are positions (page, index), the head is (1, 0).  TLC     *)
(* checks that walking the pages from the head gives the abstract list, in order and *)
(* complete, that the list is extended from its last slot only, and that a stored    *)
(* value is found again wherever other slots and pages were added.                    *)
EXTENDS MetaList
CONSTANTS PerPage, MaxSlots, Vals
VARIABLES pages, res
mvars == <<slots, pages, res>>
Nil == 0
Page(c) == [count |-> c, next |-> Nil, s |-> [i \in 1..PerPage |-> Fresh]]
Init == LInit /\ pages = <<Page(0)>> /\ res = "ok"
NextPos(h) ==
    LET p == pages[h[1]] IN
    IF h[2] < p.count THEN <<h[1], h[2] + 1>>
    ELSE IF p.next = Nil THEN <<0, 0>> ELSE <<p.next, 1>>
RECURSIVE Walk(_)
Walk(h) == LET x == NextPos(h) IN IF x = <<0, 0>> THEN << >> ELSE <<x>> \o Walk(x)
All == Walk(<<1, 0>>)
Handles == {<<1, 0>>} \cup {All[i] : i \in 1..Len(All)}
IndexOf(h) == IF h = <<1, 0>> THEN 0 ELSE CHOOSE i \in 1..Len(All) : All[i] = h
AddNext(h) ==
    LET p == pages[h[1]] IN
    IF h[2] < p.count THEN res' = "err" /\ UNCHANGED <<pages, slots>>
    ELSE IF p.count # PerPage
         THEN pages' = [pages EXCEPT ![h[1]].count = @ + 1] /\ res' = "ok" /\ Add
    ELSE IF p.next # Nil THEN res' = "err" /\ UNCHANGED <<pages, slots>>
    ELSE pages' = [Append(pages, Page(1)) EXCEPT ![h[1]].next = Len(pages) + 1] /\ res' = "ok" /\ Add
Set(h, v) == /\ h # <<1, 0>>
             /\ pages' = [pages EXCEPT ![h[1]].s[h[2]].md = v]
             /\ SetMeta(IndexOf(h), v) /\ res' = "ok"
SetR(h, v) == /\ h # <<1, 0>>
              /\ pages' = [pages EXCEPT ![h[1]].s[h[2]].root = v]
              /\ SetRoot(IndexOf(h), v) /\ res' = "ok"
Step == \E h \in Handles : \/ NSlots < MaxSlots /\ AddNext(h)
                           \/ \E v \in Vals : Set(h, v) \/ SetR(h, v)
Spec == Init /\ [][Step]_mvars
Refines == /\ Len(All) = NSlots
           /\ \A i \in 1..NSlots : pages[All[i][1]].s[All[i][2]] = slots[i]
OnlyLastExtends == [][\A h \in Handles : AddNext(h) => (res' = "ok") = CanAdd(IndexOf(h))]_mvars
=============================================================================
