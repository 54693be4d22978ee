--------------------------- MODULE MetaListTrace ---------------------------
EXTENDS MetaList, TraceBase
vars == <<slots, tid, l>>
TInit == TBInit /\ LInit
\* every event carries the whole list as read back, and whether the other pages of the file kept their bytes
ReadBack == [i \in 1..Len(E.list) |-> [root |-> E.list[i][1], md |-> E.list[i][2]]]
Observed == ReadBack = slots' /\ E.others
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op \in {"open", "reopen"} -> E.res = "ok" /\ Same
         [] E.op = "add" /\ CanAdd(E.i) -> E.res = "ok" /\ Add
         [] E.op = "add" /\ ~CanAdd(E.i) -> E.res = "err" /\ Same
         [] E.op = "setroot" /\ E.i > 0 -> E.res = "ok" /\ SetRoot(E.i, E.v)
         [] E.op = "setmeta" /\ E.i > 0 /\ E.n <= 255 -> E.res = "ok" /\ SetMeta(E.i, E.v)
         [] E.op = "setmeta" /\ E.i > 0 /\ E.n > 255 -> E.res = "err" /\ Same
         \* the head of the list is not a slot
         [] E.op \in {"setroot", "setmeta", "getroot", "getmeta"} /\ E.i = 0 -> E.res = "err" /\ Same
         \* other users of the file allocate and free pages
         [] E.op = "page" -> E.res = "ok" /\ Same
    /\ Observed
    /\ E.pages = E.filepages
TNext == Step \/ (TBDone /\ UNCHANGED slots)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
