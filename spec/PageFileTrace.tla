--------------------------- MODULE PageFileTrace ---------------------------
EXTENDS PageFile, TraceBase
vars == <<n, live, free, disk, content, tid, l>>
TInit == TBInit /\ PFInit

\* the projected state recorded after the event is the state the action leads to
Observed ==
    /\ E.n = n'
    /\ E.cnt = n'
    /\ LET changed == {p \in 1..(n' - 1) : p >= n \/ content'[p] # content[p]}
           got == Range(E.chg)
       IN  /\ {g[1] : g \in got} = changed
           /\ \A g \in got : content'[g[1]] = g[2]
    /\ IF E.disk = <<-1>> THEN TRUE ELSE Range(E.disk) = disk' /\ Len(E.disk) = Cardinality(disk')

Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op \in {"open", "reopen"} -> E.res = "ok" /\ Open
         [] E.op = "alloc" /\ E.c # "big" -> E.res = "ok" /\ Alloc(E.p, E.c)
         [] E.op = "alloc" /\ E.c = "big" -> E.res = "err" /\ Rejected
         [] E.op = "allocs" -> E.res = "ok" /\ AllocMany(E.ps, E.c)
         [] E.op = "free" /\ FreeMustFail(E.p) -> E.res = "err" /\ Rejected
         [] E.op = "free" /\ ~FreeMustFail(E.p) -> E.res = "ok" /\ Free(E.p)
         [] E.op = "pop" -> E.res = "ok" /\ Pop(E.p)
         [] E.op = "freebad" -> E.res = "err" /\ Rejected
         [] E.op = "write" -> E.res = "ok" /\ Write(E.p, E.c)
         \* a file that is not whole pages is refused and left as it was
         [] E.op = "opentorn" -> E.res = "err" /\ E.c = "kept" /\ Rejected
    /\ Observed
TNext == Step \/ (TBDone /\ UNCHANGED pvars)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
