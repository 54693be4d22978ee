------------------------------ MODULE MetaList ------------------------------
(* The list of meta slots of an index file (pkg/linkedpage): a growing sequence of  *)
(* slots, each holding the root pointer of a tree and a short metadata record.       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE slots      \* sequence of [root, md]
lvars == <<slots>>
LInit == slots = << >>
Fresh == [root |-> "0:0", md |-> ""]
NSlots == Len(slots)
\* only the last slot of the list (the head of an empty list) can be extended
CanAdd(i) == i = NSlots
Add == slots' = Append(slots, Fresh)
SetRoot(i, r) == i \in 1..NSlots /\ slots' = [slots EXCEPT ![i].root = r]
SetMeta(i, m) == i \in 1..NSlots /\ slots' = [slots EXCEPT ![i].md = m]
Same == UNCHANGED slots
=============================================================================
