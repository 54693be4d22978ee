---------------------------- MODULE CatalogueMC ----------------------------
EXTENDS Catalogue
CONSTANTS NS, TS, MaxLen
VARIABLE opened
vars == <<fm, cat, opened>>
Init == CInit /\ opened = FALSE
Next == \/ \E f \in {"jsonl", "csv"} : IF Compatible(f) THEN Open(f) /\ opened' = TRUE ELSE UNCHANGED cvars /\ opened' = FALSE
        \/ opened /\ UNCHANGED opened /\ \E n \in NS, t \in TS :
               Lookup(n, t) \/ (Len(cat) < MaxLen /\ Create(n, t))
        \/ opened /\ UNCHANGED opened /\ \E i \in 1..Len(cat) : SetTotal(i, "7") \/ SetRoot(i, "8")
        \/ opened /\ UNCHANGED opened /\ \E v \in {1, 2} : SetFile(v, "3", "1")
Spec == Init /\ [][Next]_vars
\* indexes are never dropped, renamed or reordered; the format is the one of the first opening
Stable == [][/\ Len(cat') >= Len(cat)
             /\ \A i \in 1..Len(cat) : cat'[i].n = cat[i].n /\ cat'[i].t = cat[i].t
             /\ fm.fmt # "none" => fm'.fmt = fm.fmt]_vars
OrderOfFirstUse == \A i, j \in 1..Len(Names) : i < j => Names[i] # Names[j]
=============================================================================
