---------------------------- MODULE DistHeapImpl ----------------------------
(* The array algorithm of the min-max heap (pkg/hnsw/heap.go): up, down, push, pop and     *)
(* Fix after an item's distance changed in place.  Checked: every operation keeps the      *)
(* heap order (items on even levels are least in their subtree, on odd levels greatest),   *)
(* so that the ends are the minimum and the maximum, and keeps the multiset of distances.   *)
(* Switch FixBoth: an item that changed may have to go up and what replaces it down.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxLen, MaxVal, FixBoth
VARIABLES a, out, op    \* a[1..n]: distances; out: what the last step promised; op: the last operation
Vals == 0..MaxVal
\* positions are 0-based as in the code
At(s, i) == s[i + 1]
Lev(i) == IF i < 1 THEN 0 ELSE IF i < 3 THEN 1 ELSE IF i < 7 THEN 2 ELSE IF i < 15 THEN 3 ELSE 4
MinLev(i) == Lev(i) % 2 = 0
Par(i) == (i - 1) \div 2
Swap(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
Less(s, i, j) == At(s, i) < At(s, j)

RECURSIVE Climb(_, _, _)
Climb(s, i, mn) ==
    IF i <= 2 THEN s
    ELSE LET g == Par(Par(i)) IN
         IF Less(s, i, g) # mn THEN s ELSE Climb(Swap(s, i, g), g, mn)
Up(s, i) ==
    LET mn == MinLev(i) IN
    IF i > 0 /\ Less(s, Par(i), i) = mn THEN Climb(Swap(s, i, Par(i)), Par(i), ~mn)
    ELSE Climb(s, i, mn)

\* the best of m and c, c only when it is inside the heap of n items
Better(s, n, mn, m, c) == IF c < n /\ Less(s, c, m) = mn THEN c ELSE m
\* returns <<array, final position>>
RECURSIVE Down(_, _, _)
Down(s, i, n) ==
    LET mn == MinLev(i)
        lc == 2 * i + 1
        rc == 2 * i + 2
    IN IF lc >= n THEN <<s, i>>
       ELSE LET m1 == Better(s, n, mn, i, lc)
                m2 == Better(s, n, mn, m1, rc)
                m3 == Better(s, n, mn, m2, 2 * lc + 1)
                m4 == Better(s, n, mn, m3, 2 * lc + 2)
                m5 == Better(s, n, mn, m4, 2 * rc + 1)
                m == Better(s, n, mn, m5, 2 * rc + 2)
            IN IF m = i THEN <<s, i>>
               ELSE LET t == Swap(s, i, m) IN
                    IF m = lc \/ m = rc THEN <<t, i>>
                    ELSE LET u == IF Less(t, Par(m), m) = mn THEN Swap(t, m, Par(m)) ELSE t
                         IN Down(u, m, n)
Fix(s, i) ==
    IF FixBoth THEN Down(Up(s, i), i, Len(s))[1]
    ELSE LET d == Down(s, i, Len(s)) IN IF d[2] > i THEN d[1] ELSE Up(s, i)
MaxPos(s) == LET p1 == IF 1 < Len(s) /\ ~Less(s, 1, 0) THEN 1 ELSE 0
             IN IF 2 < Len(s) /\ ~Less(s, 2, p1) THEN 2 ELSE p1
Drop(s) == SubSeq(s, 1, Len(s) - 1)
Take(s, i) == Drop(Down(Swap(s, i, Len(s) - 1), i, Len(s) - 1)[1])

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBut(s, t, plus, minus) ==     \* t = s + {plus} - {minus} as multisets (-1: none)
    \A v \in Vals : Count(t, v) = Count(s, v) + (IF v = plus THEN 1 ELSE 0) - (IF v = minus THEN 1 ELSE 0)

Init == a = <<>> /\ out = TRUE /\ op = <<"new">>
Insert(v) == Len(a) < MaxLen /\ LET t == Up(Append(a, v), Len(a)) IN a' = t /\ out' = SameBut(a, t, v, -1) /\ op' = <<"insert", v>>
Update(i, v) == LET t == Fix([a EXCEPT ![i + 1] = v], i) IN
                a' = t /\ out' = SameBut([a EXCEPT ![i + 1] = v], t, -1, -1) /\ op' = <<"update", i, v>>
PopMin == Len(a) > 0 /\ a' = Take(a, 0) /\ out' = SameBut(a, a', -1, At(a, 0)) /\ op' = <<"popmin">>
PopMax == Len(a) > 0 /\ LET p == MaxPos(a) IN a' = Take(a, p) /\ out' = SameBut(a, a', -1, At(a, p)) /\ op' = <<"popmax">>
Next == \/ \E v \in Vals : Insert(v) \/ \E i \in 0..(Len(a) - 1) : Update(i, v)
        \/ PopMin \/ PopMax
Spec == Init /\ [][Next]_<<a, out, op>>
View == <<a, out>>
Emit == PrintT("TR " \o ToJson([a |-> a, op |-> op']))

Ordered == \A i \in 1..(Len(a) - 1) :       \* against every ancestor
    LET RECURSIVE Ok(_)
        Ok(p) == /\ IF MinLev(p) THEN At(a, p) <= At(a, i) ELSE At(a, p) >= At(a, i)
                 /\ p = 0 \/ Ok(Par(p))
    IN Ok(Par(i))
Kept == out
Ends == Len(a) > 0 => /\ \A i \in 1..Len(a) : At(a, 0) <= a[i]
                      /\ \A i \in 1..Len(a) : At(a, MaxPos(a)) >= a[i]
=============================================================================
