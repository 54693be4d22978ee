------------------------------ MODULE IterImpl ------------------------------
(* The iterator of the B+ tree as implemented: a path of (node, index) records from *)
(* the leaf to the root, moved by a recursive increment which rolls over into the    *)
(* parent.  TLC checks for every small tree of depth three, every start position and *)
(* every sequence of steps that it moves like a plain position in the key sequence   *)
(* (IterTrace.tla), staying one past either end without losing its place.  A step may  *)
(* fail at the node it loads; the iterator then is where it was (without Restore it    *)
(* has skipped the rest of the node it failed to load: IterImplX.cfg).                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFan, MaxLeaf,
          Restore   \* a step that fails puts the path back to where it was
VARIABLES tree,     \* root: sequence of inner nodes, each a sequence of leaf sizes
          i0, i1, i2, m, f,   \* indexes in leaf, inner node, root; loaded inner node and leaf
          started,
          pos, astarted, ret  \* the abstract iterator, and what both last returned
vars == <<tree, i0, i1, i2, m, f, started, pos, astarted, ret>>

Seqs(S, k) == UNION {[1..j -> S] : j \in 2..k}
Trees == Seqs(Seqs(1..MaxLeaf, MaxFan), MaxFan)
SumTo(s, k) == LET F[j \in 0..k] == IF j = 0 THEN 0 ELSE F[j - 1] + s[j] IN F[k]
Total(t) == SumTo([j \in 1..Len(t) |-> SumTo(t[j], Len(t[j]))], Len(t))
\* keys before leaf f of inner node m
Before(t, mm, ff) == SumTo([j \in 1..Len(t) |-> SumTo(t[j], Len(t[j]))], mm - 1) + SumTo(t[mm], ff - 1)
N == Total(tree)

\* traverse: any leaf, any index in it, one past its end included (a separator equal to the key goes right,
\* so that the path is consistent: the loaded nodes are the ones the indexes point at)
Init ==
    /\ tree \in Trees
    /\ i2 \in 1..Len(tree) /\ m = i2
    /\ i1 \in 1..Len(tree[m]) /\ f = i1
    /\ i0 \in 1..(tree[m][f] + 1)
    /\ started = FALSE /\ astarted = FALSE /\ ret = <<TRUE, TRUE>>
    /\ pos = Before(tree, m, f) + i0

\* incr of the root record, then of the inner record, then of the leaf record
Root(d) == IF i2 + d \in 1..Len(tree) THEN <<TRUE, i2 + d>> ELSE <<FALSE, i2>>
Inner(d) ==
    IF i1 + d \in 1..Len(tree[m]) THEN <<TRUE, i1 + d, m, i2>>
    ELSE LET r == Root(d) IN
         IF ~r[1] THEN <<FALSE, i1, m, i2>>
         ELSE <<TRUE, IF d < 0 THEN Len(tree[r[2]]) ELSE 1, r[2], r[2]>>
Leaf(d) ==
    IF i0 + d \in 1..tree[m][f] THEN <<TRUE, i0 + d, f, i1, m, i2>>
    ELSE LET r == Inner(d) IN
         IF ~r[1] THEN <<FALSE, IF i0 + d < 0 THEN 0 ELSE IF i0 + d > tree[m][f] + 1 THEN tree[m][f] + 1 ELSE i0 + d, f, i1, m, i2>>
         ELSE <<TRUE, IF d < 0 THEN tree[r[3]][r[2]] ELSE 1, r[2], r[2], r[3], r[4]>>
Set(r) == i0' = r[2] /\ f' = r[3] /\ i1' = r[4] /\ m' = r[5] /\ i2' = r[6]
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > N + 1 THEN N + 1 ELSE x
Step(d) ==
    /\ UNCHANGED tree
    /\ started' = TRUE /\ astarted' = TRUE
    /\ LET stay == d > 0 /\ ~started /\ i0 # tree[m][f] + 1
           r == IF stay THEN <<TRUE, i0, f, i1, m, i2>> ELSE Leaf(d)
           \* the lower bound of a key past the end of a leaf is the first key of the next leaf
           p == IF d > 0 /\ ~astarted THEN pos ELSE Clamp(pos + d)
       IN /\ Set(r)
          /\ pos' = p
          /\ ret' = <<r[1], p \in 1..N>>
\* the step fails at the leaf it loads, or already at the inner node
Fail(d) ==
    /\ i0 + d \notin 1..tree[m][f] /\ Inner(d)[1]
    /\ ~(d > 0 /\ ~started /\ i0 # tree[m][f] + 1)
    /\ LET r == Inner(d) IN
       IF Restore THEN UNCHANGED <<i0, i1, i2, m, f, started>>
       ELSE /\ i0' = i0 + d /\ f' = f /\ started' = TRUE
            /\ \/ i1' = r[2] /\ m' = r[3] /\ i2' = r[4]
               \/ i1 + d \notin 1..Len(tree[m]) /\ i1' = i1 + d /\ m' = m /\ i2' = r[4]
    /\ UNCHANGED <<tree, pos, astarted, ret>>
Next == \E d \in {1, -1} : Step(d) \/ Fail(d)
Spec == Init /\ [][Next]_vars
Agree == ret[1] = ret[2]
Same == pos = Before(tree, m, f) + i0 \/ (~started)
InPath == m = i2 /\ f = i1
=============================================================================
