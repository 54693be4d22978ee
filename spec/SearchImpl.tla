----------------------------- MODULE SearchImpl -----------------------------
(* How the client searches: the n-grams of the query are taken in any order; for each    *)
(* the index of its length is walked from the first entry of that word to the last, the   *)
(* entries are counted by record, and each record's score grows by the weight of the       *)
(* count.  TLC checks for every small set of records and query that what is left at the     *)
(* end is what Search.tla says, whatever the order; and it prints the records and queries,  *)
(* which are then asked of the real client.                                                *)
EXTENDS Search, TLC, Json
CONSTANTS MaxDocs, MaxLen, MaxQ, Letters, Grammings, Emit
VARIABLES docs, q, gr, left, cur, pos, tf, table, pc
vars == <<docs, q, gr, left, cur, pos, tf, table, pc>>
LettersAB == {97, 98}
LettersABS == {97, 98, 32}
Gr3 == {<<1, 2>>, <<2, 2>>, <<1, 1>>}
Gr4 == {<<1, 2>>, <<2, 2>>, <<1, 3>>, <<3, 3>>}
Texts(n) == UNION {[1..k -> Letters] : k \in 0..n}
ND == Len(docs)
\* the code of a text, to take sets of records in one order only
RECURSIVE Code(_)
Code(t) == IF t = << >> THEN 0 ELSE t[1] + 200 * Code(Tail(t))
Init ==
    /\ docs \in UNION {{d \in [1..n -> Texts(MaxLen)] : \A i \in 1..(n - 1) : Code(d[i]) <= Code(d[i + 1])} : n \in 1..MaxDocs}
    /\ q \in Texts(MaxQ) \ {<< >>}
    /\ gr \in Grammings
    /\ left = 1..Len(Grams(q, gr[1], gr[2]))
    /\ cur = 0 /\ pos = 0 /\ tf = << >> /\ table = << >> /\ pc = "pick"
G == Grams(q, gr[1], gr[2])
\* the index of the n-grams of length g: words with record and place, in order
RECURSIVE WLess(_, _)
WLess(a, b) == IF a = << >> THEN b # << >> ELSE IF b = << >> THEN FALSE
               ELSE a[1] < b[1] \/ (a[1] = b[1] /\ WLess(Tail(a), Tail(b)))
ELess(a, b) == WLess(a[1], b[1]) \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Index(g) ==
    LET S == UNION {{<<Tokens(docs[r], g)[k].w, r, Tokens(docs[r], g)[k].o>> : k \in 1..Len(Tokens(docs[r], g))} : r \in 1..ND}
        rank(e) == 1 + Cardinality({x \in S : ELess(x, e)})
    IN [k \in 1..Cardinality(S) |-> CHOOSE e \in S : rank(e) = k]
\* weights that tell every pair apart
W(nt, t) == (nt * nt + 3) * (5 * t + t * t * t)
Pick ==
    /\ pc = "pick" /\ left # {}
    /\ \E k \in left :
         LET ix == Index(Len(G[k].w)) IN
         /\ cur' = k /\ left' = left \ {k}
         /\ pos' = 1 + Cardinality({i \in 1..Len(ix) : WLess(ix[i][1], G[k].w)})
    /\ tf' = << >> /\ pc' = "walk" /\ UNCHANGED <<docs, q, gr, table>>
Get(f, r) == IF r \in DOMAIN f THEN f[r] ELSE 0
Put(f, r, v) == [x \in DOMAIN f \cup {r} |-> IF x = r THEN v ELSE f[x]]
Walk ==
    /\ pc = "walk"
    /\ LET ix == Index(Len(G[cur].w)) IN
       IF pos <= Len(ix) /\ ix[pos][1] = G[cur].w
       THEN /\ tf' = Put(tf, ix[pos][2], Get(tf, ix[pos][2]) + 1) /\ pos' = pos + 1
            /\ UNCHANGED <<table, pc>>
       ELSE /\ table' = [r \in DOMAIN table \cup DOMAIN tf |->
                           Get(table, r) + (IF r \in DOMAIN tf THEN W(Cardinality(DOMAIN tf), tf[r]) ELSE 0)]
            /\ pc' = "pick" /\ UNCHANGED <<tf, pos>>
    /\ UNCHANGED <<docs, q, gr, left, cur>>
Finish == pc = "pick" /\ left = {} /\ pc' = "done" /\ UNCHANGED <<docs, q, gr, left, cur, pos, tf, table>>
Next == Pick \/ Walk \/ Finish \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
TF(k, r) == Count(Tokens(docs[r], Len(G[k].w)), G[k].w)
NT(k) == Cardinality({r \in 1..ND : TF(k, r) > 0})
Hits == {r \in 1..ND : \E k \in 1..Len(G) : TF(k, r) > 0}
Right == pc = "done" =>
    /\ DOMAIN table = Hits
    /\ \A r \in Hits : table[r] = Sum([k \in 1..Len(G) |-> IF TF(k, r) = 0 THEN 0 ELSE W(NT(k), TF(k, r))], Len(G))
Printed == (Emit /\ pc = "pick" /\ cur = 0) => PrintT("TR " \o ToJson([d |-> docs, q |-> q, min |-> gr[1], max |-> gr[2]]))
=============================================================================
