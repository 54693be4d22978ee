------------------------------- MODULE Varint -------------------------------
(* The variable-length integers of the index file: groups of bits from the lowest, a      *)
(* continuation mark on every group but the last.  The decoder as the client implements    *)
(* it adds up groups weighted by powers of the base; TLC checks for every small number      *)
(* that it gets the number and the length back, whatever follows in the buffer.             *)
EXTENDS Integers, Sequences
CONSTANTS Base, MaxN
VARIABLES n, rest, i, x, w, pc
vars == <<n, rest, i, x, w, pc>>
RECURSIVE Enc(_)
Enc(k) == IF k < Base THEN <<k>> ELSE <<Base + (k % Base)>> \o Enc(k \div Base)
Bytes == Enc(n) \o rest
Init == n \in 0..MaxN /\ rest \in {<< >>, <<0>>, <<Base>>, <<2 * Base - 1, 1>>} /\ i = 1 /\ x = 0 /\ w = 1 /\ pc = "read"
Read ==
    /\ pc = "read" /\ i <= Len(Bytes)
    /\ LET b == Bytes[i] IN
       IF b < Base THEN x' = x + b * w /\ pc' = "done" /\ UNCHANGED <<w, i>>
       ELSE x' = x + (b % Base) * w /\ w' = w * Base /\ i' = i + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<n, rest>>
Next == Read \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
RoundTrip == pc = "done" => x = n /\ i = Len(Enc(n))
Ends == <>(pc = "done")
=============================================================================
