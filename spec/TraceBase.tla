---------------------------- MODULE TraceBase ----------------------------
(* Trace validation: the recorded behaviours of the real code (one JSON object *)
(* per line: id, cfg, ev = sequence of events) are the initial states of the    *)
(* trace specifications; each step consumes one event through an action of the  *)
(* component's specification.  A recorded event that no action explains leaves   *)
(* TLC in a deadlock, which the runner reports with the event.                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)
VARIABLES tid, l
tvars == <<tid, l>>
TBInit == tid \in 1..NTraces /\ l = 1
Evs == Traces[tid].ev
Cfg == Traces[tid].cfg
HasEv == l <= Len(Evs)
E == Evs[l]
Consume == l' = l + 1 /\ tid' = tid
TBDone == l > Len(Evs) /\ UNCHANGED tvars
Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
