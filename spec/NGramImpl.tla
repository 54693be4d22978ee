------------------------------ MODULE NGramImpl ------------------------------
(* The tokenizer as pkg/ngram computes it.  One pass over the decomposed phrase keeps its  *)
(* ASCII characters and, for each, its place: the byte it stands at less the bytes that    *)
(* wider characters up to there took beyond one each.  A second pass collects the places   *)
(* of the letters and digits of each word; a word shorter than the n-gram is dropped when   *)
(* it ends.  A third slides the window.  Checked against NGram for every phrase.           *)
EXTENDS NGram, Json, TLC
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES cps, g, pc, i, byte, extra, clean, place, cur, words, out
vars == <<cps, g, pc, i, byte, extra, clean, place, cur, words, out>>
Bytes(c) == IF c <= 127 THEN 1 ELSE IF c <= 2047 THEN 2 ELSE IF c <= 65535 THEN 3 ELSE 4
Phrases == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init ==
    /\ cps \in Phrases /\ g \in 1..3 /\ pc = "norm" /\ i = 1 /\ byte = 0 /\ extra = 0
    /\ clean = << >> /\ place = << >> /\ cur = << >> /\ words = << >> /\ out = << >>
Norm ==
    /\ pc = "norm"
    /\ IF i > Len(cps) THEN pc' = "split" /\ i' = 1 /\ UNCHANGED <<byte, extra, clean, place>>
       ELSE LET c == cps[i]
                x == extra + Bytes(c) - 1
            IN /\ extra' = x /\ byte' = byte + Bytes(c) /\ i' = i + 1 /\ pc' = pc
               /\ IF c <= 127 THEN clean' = Append(clean, c) /\ place' = Append(place, byte - x)
                  ELSE UNCHANGED <<clean, place>>
    /\ UNCHANGED <<cps, g, cur, words, out>>
Keep == IF Len(cur) >= g THEN Append(words, cur) ELSE words
Split ==
    /\ pc = "split"
    /\ IF i > Len(clean) THEN words' = Keep /\ cur' = << >> /\ pc' = "slide" /\ i' = 1
       ELSE /\ i' = i + 1 /\ pc' = pc
            /\ IF NIsWord(clean[i]) THEN cur' = Append(cur, i) /\ UNCHANGED words
               ELSE IF NIsSpace(clean[i]) THEN words' = Keep /\ cur' = << >>
               ELSE UNCHANGED <<cur, words>>
    /\ UNCHANGED <<cps, g, byte, extra, clean, place, out>>
Window(w, k) == [w |-> [j \in 1..g |-> NLower(clean[w[k + j - 1]])], o |-> place[w[k]],
                 n |-> place[w[k + g - 1]] - place[w[k]] + 1]
Slide ==
    /\ pc = "slide"
    /\ IF i > Len(words) THEN pc' = "done" /\ UNCHANGED <<i, out>>
       ELSE /\ out' = out \o [k \in 1..(Len(words[i]) - g + 1) |-> Window(words[i], k)]
            /\ i' = i + 1 /\ pc' = pc
    /\ UNCHANGED <<cps, g, byte, extra, clean, place, cur, words>>
Next == Norm \/ Split \/ Slide \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Right == pc = "done" => out = Tokens(cps, g)
\* the windows of a word are found in the clean text as they stand, and no two start at the same place
Distinct == pc = "done" => \A a, b \in 1..Len(out) : a # b => out[a].o # out[b].o
Inside == pc = "done" => \A a \in 1..Len(out) : out[a].o >= 0 /\ out[a].n >= g /\ out[a].o + out[a].n <= Len(cps)
Printed == (Emit /\ pc = "done" /\ g = 1) => PrintT("TR " \o ToJson([cps |-> cps]))
=============================================================================
