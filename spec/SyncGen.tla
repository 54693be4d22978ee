------------------------------- MODULE SyncGen -------------------------------
(* Histories of a data file and its index, to be replayed into the code: lines are      *)
(* appended whole or torn, some cannot be indexed and are repaired, synchronisations     *)
(* run to their end or are killed at the beginning, in the midst or near the end of      *)
(* their writes, the data is cut short.  Every history of MaxLen steps that makes sense  *)
(* (Sync's preconditions) is printed; HistTrace checks what the code made of it.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxRecs, MaxKills
VARIABLES good,   \* the complete lines: can they be indexed
          torn,   \* a piece of the next line is there
          done,   \* lines indexed at the least
          seen,   \* the last whole synchronisation saw everything
          refused,\* it met a bad line
          hist
vars == <<good, torn, done, seen, refused, hist>>
Bad == {i \in 1..Len(good) : ~good[i]}
FirstBad == IF Bad = {} THEN Len(good) + 1 ELSE CHOOSE i \in Bad : \A j \in Bad : i <= j
Kills == Cardinality({i \in 1..Len(hist) : hist[i] \in {"k1", "k2", "k3"}})
Do(x) == Len(hist) < MaxLen /\ hist' = Append(hist, x)
Init == good = << >> /\ torn = FALSE /\ done = 0 /\ seen = FALSE /\ refused = FALSE /\ hist = << >>
App(g) == /\ Len(good) < MaxRecs /\ Do(IF g THEN "good" ELSE "bad")
          /\ good' = Append(good, g) /\ torn' = FALSE /\ seen' = FALSE /\ UNCHANGED <<done, refused>>
Tear == /\ ~torn /\ Do("tear") /\ torn' = TRUE /\ seen' = FALSE /\ UNCHANGED <<good, done, refused>>
Sync == /\ Do("sync") /\ done' = FirstBad - 1 /\ seen' = TRUE /\ refused' = (Bad # {}) /\ UNCHANGED <<good, torn>>
\* a synchronisation which writes something
Kill(k) == /\ Kills < MaxKills /\ ~seen /\ good # << >> /\ Do(k) /\ UNCHANGED <<good, torn, done, seen, refused>>
Repair == /\ refused /\ Bad # {} /\ Do("repair") /\ good' = [good EXCEPT ![FirstBad] = TRUE]
          /\ refused' = FALSE /\ seen' = FALSE /\ UNCHANGED <<torn, done>>
Cut == /\ done > 0 /\ (IF hist = << >> THEN TRUE ELSE hist[Len(hist)] # "cut") /\ Do("cut") /\ UNCHANGED <<good, torn, done, seen, refused>>
Next == App(TRUE) \/ App(FALSE) \/ Tear \/ Sync \/ Kill("k1") \/ Kill("k2") \/ Kill("k3") \/ Repair \/ Cut
Spec == Init /\ [][Next]_vars
Sane == done <= Len(good) /\ (\A i \in 1..done : good[i])
\* what ends in an append or a tear was tried before
Printed == (Len(hist) = MaxLen /\ hist[MaxLen] \in {"sync", "k1", "k2", "k3", "cut"}) => PrintT("TR " \o ToJson([h |-> hist]))
=============================================================================
