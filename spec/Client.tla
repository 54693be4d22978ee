------------------------------- MODULE Client -------------------------------
(* A client of the index serves calls (queries, lists of fields, byte ranges) at the     *)
(* same time, over requests which may fail.  Every call has the answer it would have      *)
(* alone; it may give up only for a request that failed while it was running, and then    *)
(* what it returned before was the beginning of its answer.                               *)
EXTENDS Integers, Sequences, TLC
VARIABLE calls   \* call -> [want: sequence, exc: a request failed while it ran]
CInit == calls = << >>
Begin(c, want) ==
    /\ c \notin DOMAIN calls
    /\ calls' = (c :> [want |-> want, exc |-> FALSE]) @@ calls
Fault == calls' = [c \in DOMAIN calls |-> [calls[c] EXCEPT !.exc = TRUE]]
\* rows were returned, Is(i, w) tells whether the i-th is w
Done(c, ok, n, Is(_, _)) ==
    /\ c \in DOMAIN calls
    /\ LET w == calls[c].want IN
       /\ n <= Len(w) /\ (ok => n = Len(w)) /\ (ok \/ calls[c].exc)
       /\ \A i \in 1..n : Is(i, w[i])
    /\ calls' = [d \in DOMAIN calls \ {c} |-> calls[d]]
Quiet == DOMAIN calls = {}
=============================================================================
