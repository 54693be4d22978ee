------------------------------ MODULE DistHeap ------------------------------
(* The double-ended priority queue of the vector search: a map from ids to distances.    *)
(* Inserting an id that is present replaces its distance; the minimum and the maximum can *)
(* be looked at or taken out; a clone is a separate queue with the same content.          *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE heaps          \* a sequence of functions id -> distance
Values(q) == {q[i] : i \in DOMAIN q}
Empty(q) == DOMAIN q = {}
IsMin(q, i) == i \in DOMAIN q /\ \A j \in DOMAIN q : q[i] <= q[j]
IsMax(q, i) == i \in DOMAIN q /\ \A j \in DOMAIN q : q[i] >= q[j]
Without(q, i) == [j \in DOMAIN q \ {i} |-> q[j]]
With(q, i, d) == [j \in DOMAIN q \cup {i} |-> IF j = i THEN d ELSE q[j]]

New == heaps' = Append(heaps, <<>>)
Clone(h) == heaps' = Append(heaps, heaps[h])
Insert(h, i, d) == heaps' = [heaps EXCEPT ![h] = With(@, i, d)]
PopMin(h, i) == IsMin(heaps[h], i) /\ heaps' = [heaps EXCEPT ![h] = Without(@, i)]
PopMax(h, i) == IsMax(heaps[h], i) /\ heaps' = [heaps EXCEPT ![h] = Without(@, i)]
=============================================================================
