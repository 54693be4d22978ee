------------------------------ MODULE CSVImpl ------------------------------
(* One line as pkg/handlers/csv.go reads it with encoding/csv: a reader that goes from     *)
(* cell to cell, noting where each starts, and the places of the cells worked out from      *)
(* these starts; the stored key is decoded from the bytes at its place.  Checked against     *)
(* CSV for every line.                                                                      *)
EXTENDS CSV, Json, TLC
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES line, s, pos, mode, buf, starts, texts, res
vars == <<line, s, pos, mode, buf, starts, texts, res>>
Lines == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == /\ line \in Lines /\ s = Trim(line) /\ pos = 1 /\ mode = "cell" /\ buf = << >> /\ starts = << >> /\ texts = << >>
        /\ res = IF Trim(line) = << >> THEN "bad" ELSE "run"
From(i, c) == {j \in i..Len(s) : s[j] = c}
Least(S) == CHOOSE j \in S : \A k \in S : j <= k
Put(p, t) == starts' = Append(starts, p) /\ texts' = Append(texts, t)
Cell ==
    /\ res = "run" /\ mode = "cell"
    /\ IF pos > Len(s) \/ s[pos] # QUOTE
       THEN LET c == From(pos, COMMA)
                end == IF c = {} THEN Len(s) ELSE Least(c) - 1
                x == SubSeq(s, pos, end)
            IN IF QUOTE \in {x[i] : i \in DOMAIN x}
               THEN res' = "bad" /\ UNCHANGED <<pos, mode, buf, starts, texts>>
               ELSE /\ Put(pos - 1, x)
                    /\ IF c = {} THEN res' = "ok" /\ UNCHANGED pos ELSE pos' = end + 2 /\ UNCHANGED res
                    /\ UNCHANGED <<mode, buf>>
       ELSE mode' = "quoted" /\ buf' = << >> /\ pos' = pos + 1 /\ starts' = Append(starts, pos - 1) /\ UNCHANGED <<texts, res>>
    /\ UNCHANGED <<line, s>>
InQuotes ==
    /\ res = "run" /\ mode = "quoted"
    /\ LET q == From(pos, QUOTE) IN
       IF q = {} THEN res' = "bad" /\ UNCHANGED <<pos, mode, buf, texts>>
       ELSE LET j == Least(q)
                b == buf \o SubSeq(s, pos, j - 1)
            IN CASE j = Len(s) -> texts' = Append(texts, b) /\ res' = "ok" /\ UNCHANGED <<pos, mode, buf>>
                 [] j < Len(s) /\ s[j + 1] = QUOTE -> buf' = Append(b, QUOTE) /\ pos' = j + 2 /\ UNCHANGED <<mode, texts, res>>
                 [] j < Len(s) /\ s[j + 1] = COMMA -> texts' = Append(texts, b) /\ pos' = j + 2 /\ mode' = "cell" /\ UNCHANGED <<buf, res>>
                 [] OTHER -> res' = "bad" /\ UNCHANGED <<pos, mode, buf, texts>>
    /\ UNCHANGED <<line, s, starts>>
Next == Cell \/ InQuotes \/ (res # "run" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
EndOf(k) == IF k < Len(starts) THEN starts[k + 1] - 1 ELSE Len(s)
Right ==
    /\ res = "ok" => /\ WellFormed(line)
                     /\ [k \in DOMAIN starts |-> [o |-> starts[k], n |-> EndOf(k) - starts[k], x |-> texts[k]]] = LineCells(line)
    /\ res = "bad" => ~WellFormed(line)
\* what is stored at a cell's place, read on its own, is that cell again: the tree sees the value it was given
Again == res = "ok" => \A k \in DOMAIN starts :
    LET raw == SubSeq(s, starts[k] + 1, EndOf(k)) IN
    IF raw # << >> /\ raw[1] = QUOTE THEN LineCells(raw) = <<[o |-> 0, n |-> Len(raw), x |-> texts[k]]>> ELSE raw = texts[k]
Printed == (Emit /\ res # "run") => PrintT("TR " \o ToJson([line |-> line]))
=============================================================================
