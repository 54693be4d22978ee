------------------------------- MODULE Faults -------------------------------
(* An operation of the store runs over a sequence of storage accesses (reads, seeks, *)
(* writes); any of them may fail.  A failing access is reported: the operation ends   *)
(* with an error, never with an answer, never silently, and if nothing was written    *)
(* yet the stored bytes are the ones it found.  Accesses that do not fail give the     *)
(* same answer as ever.                                                               *)
EXTENDS Integers, Sequences
CONSTANTS MaxIO, Answers
VARIABLES prog,     \* the accesses of this operation: sequence of "r", "s", "w"
          at,       \* accesses done
          fired,    \* a failing access happened
          writes,   \* writes applied
          out       \* outcome: "run", "err", or <<"ok", answer>>
fvars == <<prog, at, fired, writes, out>>
Progs == UNION {[1..n -> {"r", "s", "w"}] : n \in 0..MaxIO}
Init == prog \in Progs /\ at = 0 /\ fired = FALSE /\ writes = 0 /\ out = <<"run", 0>>
Access == /\ out[1] = "run" /\ at < Len(prog)
          /\ at' = at + 1 /\ writes' = writes + IF prog[at + 1] = "w" THEN 1 ELSE 0
          /\ UNCHANGED <<prog, fired, out>>
Fail == /\ out[1] = "run" /\ at < Len(prog)
        /\ at' = at + 1 /\ fired' = TRUE /\ out' = <<"err", 0>>
        /\ UNCHANGED <<prog, writes>>
Return == /\ out[1] = "run" /\ at = Len(prog)
          /\ \E a \in Answers : out' = <<"ok", a>>
          /\ UNCHANGED <<prog, at, fired, writes>>
Next == Access \/ Fail \/ Return
Spec == Init /\ [][Next]_fvars
Reported == fired => out[1] = "err"
NeverStuck == out[1] = "run" => (at < Len(prog) \/ ENABLED Return)
\* what an observer sees of one operation: whether an access failed, how it ended, what it answered,
\* how many writes went through before the failure, whether the stored bytes changed
\* (saves: it records, after a failure, how far it got)
Allowed(f, res, ans, base, wrote, same, saves) ==
    /\ f => res = "err"
    /\ ~f => res = "ok" /\ ans = base
    /\ (f /\ wrote = 0 /\ ~saves) => same
=============================================================================
