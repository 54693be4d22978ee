------------------------------- MODULE CodecMC -------------------------------
(* Numbers come back from their bytes whatever follows, no number's bytes begin another's,  *)
(* and the order of keys is a strict total order that searching may rely on.  The numbers     *)
(* of runs of ones (every boundary between two lengths, of words and of doubles) and small     *)
(* lists of keys are the inputs for the real code.                                            *)
EXTENDS Codec, TLC, Json
CONSTANTS Deep, Emit
VARIABLES kind, a, b, ks
vars == <<kind, a, b, ks>>
\* bits lo to hi - 1 set, and one bit flipped
Runs(lo, hi, f) ==
    LET bit(p) == IF (p >= lo /\ p < hi) # (p = f) THEN 1 ELSE 0
        RECURSIVE sum(_, _)
        sum(j, i) == IF i = 16 THEN 0 ELSE bit(16 * (j - 1) + i) * Pow2(i) + sum(j, i + 1)
    IN [j \in 1..4 |-> sum(j, 0)]
\* 64: no bit
Flips == IF Deep THEN 0..64 ELSE {0, 7, 32, 63, 64}
Numbers == {<<lo, hi, f>> : lo \in {0, 1, 6, 7, 8, 31, 32, 53, 62, 63}, hi \in 0..64, f \in Flips}
Partner(x) == {x, Runs(0, 7, 64), Runs(7, 8, 64), Runs(0, 64, 64), Runs(63, 64, 64), [x EXCEPT ![1] = (@ + 1) - 65536 * ((@ + 1) \div 65536)]}
Vals == {<< >>, <<0>>, <<0, 0>>, <<1>>, <<127>>, <<128>>, <<255>>, <<1, 255>>}
Offs == {<<0>>, <<65535>>, <<0, 1>>, <<65535, 32767>>, <<0, 32768>>, <<65535, 65535>>, <<0, 0, 1>>, <<0, 0, 0, 32768>>}
Lens == {<<0>>, <<1>>, <<0, 32768>>}
Small == {[v |-> v, o |-> o, n |-> n] : v \in {<< >>, <<1>>, <<255>>}, o \in {<<0>>, <<0, 32768>>, <<0, 0, 0, 32768>>}, n \in {<<0>>, <<0, 32768>>}}
Keys == {[v |-> v, o |-> o, n |-> n] : v \in Vals, o \in Offs, n \in Lens}
None == [v |-> << >>, o |-> <<0>>, n |-> <<0>>]
Init ==
    /\ b = None /\ ks = << >>
    /\ \/ kind = "num0" /\ \E t \in Numbers : a = Runs(t[1], t[2], t[3])
       \/ kind = "key0" /\ a \in Keys
       \/ kind = "tri0" /\ a \in Small
Next ==
    \/ kind = "num0" /\ kind' = "num" /\ b' \in Partner(a) /\ UNCHANGED <<a, ks>>
    \/ kind = "key0" /\ kind' = "key" /\ b' \in (IF Deep THEN Keys ELSE Small) /\ UNCHANGED <<a, ks>>
    \/ kind = "tri0" /\ kind' = "tri" /\ b' \in Small /\ ks' \in {<<k>> : k \in Small} /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* a number comes back, whatever its bytes stand before and after
Back ==
    kind = "num" =>
        LET s == <<128>> \o Enc(a) \o Enc(b)
            d == Dec(s, 2)
            e == Dec(s, d.next)
        IN /\ d.ok /\ d.x = a /\ d.next = 2 + Len(Enc(a))
           /\ e.ok /\ e.x = b /\ e.next = Len(s) + 1
           /\ Len(Enc(a)) \in 1..10 /\ ~Dec(SubSeq(Enc(a), 1, Len(Enc(a)) - 1), 1).ok
PrefixFree == (kind = "num" /\ a # b) => ~IsPrefix(Enc(a), Enc(b)) /\ ~IsPrefix(Enc(b), Enc(a))
Shorter == (kind = "num" /\ CmpNum(a, b) < 0) => Len(Enc(a)) <= Len(Enc(b))
\* the sixteen-bit words compare as the bytes do, the highest first
RECURSIVE Rev(_)
Rev(s) == IF s = << >> THEN << >> ELSE Append(Rev(Tail(s)), Head(s))
AsBytes == kind = "num" => CmpNum(a, b) = CmpBytes(Rev(LEBytes(a, 8)), Rev(LEBytes(b, 8)))
Order == kind \in {"key", "tri"} => CmpKeys(a, b) = -CmpKeys(b, a) /\ (CmpKeys(a, b) = 0) = SameKey(a, b)
Transitive == kind = "tri" => ((CmpKeys(a, b) <= 0 /\ CmpKeys(b, ks[1]) <= 0) => CmpKeys(a, ks[1]) <= 0)
Right == Back /\ PrefixFree /\ Shorter /\ AsBytes /\ Order /\ Transitive
Printed ==
    Emit => CASE kind = "num" /\ b = a -> PrintT("TR " \o ToJson([num |-> a]))
              [] kind = "key" -> PrintT("TR " \o ToJson([ka |-> a, kb |-> b]))
              [] OTHER -> TRUE
=============================================================================
