------------------------------ MODULE QueryImpl ------------------------------
(* How the client answers a query: an iterator over the leaves of the index's tree is    *)
(* put at a key the comparison and the direction decide on and is moved until a key is    *)
(* out of range.  TLC checks for every small file, every way its entries are split into    *)
(* leaves, and every query that the answer is the one of Query.tla; and it prints the      *)
(* queries, which are then asked of the real client.                                      *)
EXTENDS Query, FiniteSets, TLC, Json
CONSTANTS MaxN, Vals, Asks, Lims, MaxLeaf, Emit
VARIABLES data, leaves, q, f, i, started, out, pc
vars == <<data, leaves, q, f, i, started, out, pc>>
LimsMC == {-1, 0, 1, 3}
LimsGen == {-1, 1, 2}
Inf == 1000
CMPS == {"<", "<=", "==", ">=", ">"}
Less2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sorted(d) ==
    LET S == {<<d[k], k>> : k \in 1..Len(d)}
        rank(e) == 1 + Cardinality({x \in S : Less2(x, e)})
    IN [k \in 1..Len(d) |-> CHOOSE e \in S : rank(e) = k]
RECURSIVE Splits(_)
\* ways to cut n entries into leaves
Splits(n) == IF n = 0 THEN {<< >>} ELSE UNION {{<<k>> \o s : s \in Splits(n - k)} : k \in 1..(IF n < MaxLeaf THEN n ELSE MaxLeaf)}
Cut(es, s) ==
    LET From[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE From[k - 1] + s[k]
    IN [k \in 1..Len(s) |-> SubSeq(es, From[k - 1] + 1, From[k])]
Datas == UNION {[1..n -> Vals] : n \in 1..MaxN}
Queries == [cmp : CMPS, v : Asks, dir : {"ASC", "DESC"}, lim : Lims]
Init ==
    /\ data \in Datas
    /\ leaves \in {Cut(Sorted(data), s) : s \in Splits(Len(data))}
    /\ q \in Queries
    /\ f = 0 /\ i = 0 /\ started = FALSE /\ out = << >> /\ pc = "seek"
N == Len(leaves)
\* the leaf a key belongs to: separators are the first keys of the leaves but the first, an equal key goes right
LeafOf(k) == CHOOSE g \in 1..N :
    /\ g = 1 \/ ~Less2(k, leaves[g][1])
    /\ g = N \/ Less2(k, leaves[g + 1][1])
Lower(g, k) == 1 + Cardinality({j \in 1..Len(leaves[g]) : Less2(leaves[g][j], k)})
\* where the iterator starts, and which way it goes
Key == CASE q.cmp = ">" /\ q.dir = "ASC" -> <<q.v, Inf>>
         [] q.cmp = ">=" /\ q.dir = "ASC" -> <<q.v, 0>>
         [] q.cmp \in {">", ">="} /\ q.dir = "DESC" -> <<leaves[N][Len(leaves[N])][1], Inf>>
         [] q.cmp = "==" -> <<q.v, 0>>
         [] q.cmp = "<=" /\ q.dir = "DESC" -> <<q.v, Inf>>
         [] q.cmp = "<" /\ q.dir = "DESC" -> <<q.v, 0>>
         [] OTHER -> leaves[1][1]
Fwd == q.cmp = "==" \/ q.dir = "ASC"
Stops(k) == CASE q.cmp = ">" /\ q.dir = "DESC" -> k[1] <= q.v
              [] q.cmp = ">=" /\ q.dir = "DESC" -> k[1] < q.v
              [] q.cmp = "==" -> k[1] # q.v
              [] q.cmp = "<=" /\ q.dir = "ASC" -> k[1] > q.v
              [] q.cmp = "<" /\ q.dir = "ASC" -> k[1] >= q.v
              [] OTHER -> FALSE
Seek ==
    /\ pc = "seek"
    /\ f' = LeafOf(Key) /\ i' = Lower(f', Key)
    /\ pc' = IF q.lim = 0 THEN "done" ELSE "move"
    /\ UNCHANGED <<data, leaves, q, started, out>>
\* move to leaf g, position j; past either end nothing is left
At(g, j) ==
    IF j < 1 THEN (IF g = 1 THEN <<0, 0>> ELSE <<g - 1, Len(leaves[g - 1])>>)
    ELSE IF j > Len(leaves[g]) THEN (IF g = N THEN <<0, 0>> ELSE <<g + 1, 1>>)
    ELSE <<g, j>>
Move ==
    /\ pc = "move" /\ started' = TRUE
    /\ LET p == IF Fwd THEN (IF started THEN At(f, i + 1) ELSE At(f, i)) ELSE At(f, i - 1) IN
       IF p[1] = 0 \/ Stops(leaves[p[1]][p[2]]) THEN pc' = "done" /\ UNCHANGED <<f, i, out>>
       ELSE /\ f' = p[1] /\ i' = p[2]
            /\ out' = Append(out, leaves[p[1]][p[2]][2])
            /\ pc' = IF Len(out') = q.lim THEN "done" ELSE "move"
    /\ UNCHANGED <<data, leaves, q>>
Next == Seek \/ Move \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Want == Answer(0, [k \in 1..Len(data) |-> <<<<Sorted(data)[k][1]>>, Sorted(data)[k][2]>>],
               <<[cmp |-> q.cmp, v |-> <<q.v>>]>>, q.dir, q.lim)
Right == pc = "done" => out = [k \in 1..Len(Want) |-> Want[k][2]]
\* print each query once (for the first split)
Printed == (Emit /\ pc = "seek" /\ Len(leaves) = 1) =>
    PrintT("TR " \o ToJson([d |-> data, c |-> q.cmp, v |-> q.v, dir |-> q.dir, lim |-> q.lim]))
=============================================================================
