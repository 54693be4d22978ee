------------------------------ MODULE J2JImpl ------------------------------
(* Runs of the converter one after the other as scripts/jsonl2json does them: read the       *)
(* lines one by one, leave at the first that is no JSON value, write at the end.              *)
EXTENDS J2J, Json, TLC
CONSTANTS MaxRuns, Emit
VARIABLES fs, fs0, cur, i, arr, res, runs
vars == <<fs, fs0, cur, i, arr, res, runs>>
Folders == {"", "d"}          \* "d" stands for a folder named d.jsonl that has a neighbour d.json
Names == {<<"a", EXT>>, <<"a", ".json">>, <<"b">>, <<"c", EXT, ".bak">>, <<"e", EXT, EXT>>}
Paths == Folders \X Names
L(v) == [kind |-> "lines", val |-> v]
Contents == {L(<<>>), L(<<"1">>), L(<<"1", "2">>), L(<<"bad">>), L(<<"1", "bad", "2">>)}
Starts == UNION {[P -> Contents] : P \in {S \in SUBSET Paths : Cardinality(S) \in 1..2}}
Init == fs \in Starts /\ fs0 = fs /\ cur = "idle" /\ i = 1 /\ arr = <<>> /\ res = "none" /\ runs = <<>>
Begin(p) == /\ cur = "idle" /\ Len(runs) < MaxRuns /\ runs' = Append(runs, p) /\ fs0' = fs
            /\ IF Named(p) /\ p \in DOMAIN fs /\ Lines(fs[p])
               THEN cur' = "read" /\ i' = 1 /\ arr' = <<>> /\ UNCHANGED res
               ELSE res' = "fail" /\ UNCHANGED <<cur, i, arr>>
            /\ UNCHANGED fs
P == runs[Len(runs)]
Read == /\ cur = "read"
        /\ IF i > Len(fs[P].val)
           THEN /\ cur' = "idle" /\ res' = "ok"
                /\ fs' = [q \in DOMAIN fs \cup {Target(P)} |-> IF q = Target(P) THEN [kind |-> "array", val |-> arr] ELSE fs[q]]
                /\ UNCHANGED <<i, arr>>
           ELSE IF fs[P].val[i] = "bad" THEN cur' = "idle" /\ res' = "fail" /\ UNCHANGED <<fs, i, arr>>
           ELSE arr' = Append(arr, fs[P].val[i]) /\ i' = i + 1 /\ UNCHANGED <<fs, cur, res>>
        /\ UNCHANGED <<fs0, runs>>
Next == (\E p \in Paths : Begin(p)) \/ Read \/ (cur = "idle" /\ Len(runs) = MaxRuns /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
Idle == cur = "idle" /\ runs # << >>
Right == Idle => fs = After(fs0, P) /\ (res = "ok" <=> Succeeds(fs0, P))
Untouched == Idle => \A q \in DOMAIN fs0 : q # Target(P) \/ res = "fail" => fs[q] = fs0[q]
InputKept == Idle /\ P \in DOMAIN fs0 => fs[P] = fs0[P]
Ends == (cur = "read") ~> (cur = "idle")
Seq1(f) == [k \in DOMAIN f |-> f[k]]
RECURSIVE List(_)
List(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o List(S \ {x})
Printed == (Emit /\ Idle /\ Len(runs) = MaxRuns) =>
    PrintT("TR " \o ToJson([files |-> LET q == List(DOMAIN fs0) IN [k \in DOMAIN q |-> [p |-> q[k], c |-> fs0[q[k]].val, a |-> fs0[q[k]].kind = "array"]],
                            runs |-> <<P>>]))
=============================================================================
