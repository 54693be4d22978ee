----------------------------- MODULE FaultTrace -----------------------------
EXTENDS Integers, Sequences, TraceBase
VARIABLES base        \* the answer without faults
MaxIO == 0
Answers == {}
F == INSTANCE Faults WITH prog <- << >>, at <- 0, fired <- FALSE, writes <- 0, out <- <<"run", 0>>
vars == <<base, tid, l>>
TInit == TBInit /\ base = ""
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "base" -> E.res = "ok" /\ base' = E.ans
         [] E.op = "fault" ->
              /\ F!Allowed(E.fired, E.res, E.ans, base, E.wrote, E.same, Cfg.name = "synchronize")
              \* an operation that only reads leaves the store as it is, and works again once the fault is gone
              /\ Cfg.ro => E.same /\ E.again = base
              \* an insertion that fails is not there, or whole, and nothing else is lost
              /\ Cfg.name \in {"insert", "vecinsert"} => E.held \in (IF E.fired THEN {"before", "after"} ELSE {"after"})
              \* and what is inserted afterwards goes the way it would have gone
              /\ E.later
              \* and one that is run again after a failed synchronization completes the index
              /\ Cfg.name = "synchronize" => E.held # "other"
              /\ base' = base
TNext == Step \/ (TBDone /\ UNCHANGED base)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
