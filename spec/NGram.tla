------------------------------- MODULE NGram -------------------------------
(* The n-gram tokenizer (pkg/ngram, src/ngram): a phrase, given by the code points of *)
(* its compatibility decomposition, is reduced to its ASCII characters; white space   *)
(* separates words, other characters that are neither letters nor digits vanish; the  *)
(* tokens are the windows of g characters of each word, in lower case, with the place *)
(* of their first character and the distance to their last.                            *)
EXTENDS Integers, Sequences
NIsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
NIsLower(c) == c \in 97..122
NIsUpper(c) == c \in 65..90
NIsWord(c) == NIsLower(c) \/ NIsUpper(c) \/ c \in 48..57
NLower(c) == IF NIsUpper(c) THEN c + 32 ELSE c
\* words as sequences of positions in the phrase
RECURSIVE NWords(_, _, _)
NWords(cps, i, cur) ==
    IF i > Len(cps) THEN (IF cur = << >> THEN << >> ELSE <<cur>>)
    ELSE IF NIsSpace(cps[i]) THEN (IF cur = << >> THEN << >> ELSE <<cur>>) \o NWords(cps, i + 1, << >>)
    ELSE IF NIsWord(cps[i]) THEN NWords(cps, i + 1, Append(cur, i))
    ELSE NWords(cps, i + 1, cur)
NWindows(cps, w, g) ==
    IF Len(w) < g THEN << >>
    ELSE [k \in 1..(Len(w) - g + 1) |->
            [w |-> [j \in 1..g |-> NLower(cps[w[k + j - 1]])],
             o |-> w[k] - 1,
             n |-> w[k + g - 1] - w[k] + 1]]
RECURSIVE NCat(_, _, _, _)
NCat(cps, ws, g, i) == IF i > Len(ws) THEN << >> ELSE NWindows(cps, ws[i], g) \o NCat(cps, ws, g, i + 1)
Tokens(cps, g) == NCat(cps, NWords(cps, 1, << >>), g, 1)
=============================================================================
