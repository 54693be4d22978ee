------------------------------ MODULE J2JTrace ------------------------------
(* Runs of the built converter in a scratch folder: after each run every file is compared    *)
(* with what it was, and the array written with the values of the lines.  A value is          *)
(* [k: 0 null, 1 boolean, 2 integer (digits), 3 other number (double; near: it and its         *)
(* neighbours), 4 string (code points), 5 array, 6 object (members), 9 no JSON value].         *)
EXTENDS J2J, TraceBase
VARIABLE fs
vars == <<fs, tid, l>>
TInit == TBInit /\ fs = << >>
RECURSIVE Same(_, _)
Member(m, n) == LET S == {i \in DOMAIN m : m[i].n = n} IN CHOOSE i \in S : \A j \in S : j <= i   \* the last one counts
Same(x, y) ==
    /\ x.k = y.k
    /\ CASE x.k = 0 -> TRUE
         [] x.k = 1 -> x.b = y.b
         [] x.k = 2 -> x.d = y.d
         [] x.k = 3 -> y.bits \in Range(x.near)
         [] x.k = 4 -> x.c = y.c
         [] x.k = 5 -> Len(x.a) = Len(y.a) /\ \A i \in DOMAIN x.a : Same(x.a[i], y.a[i])
         [] x.k = 6 -> /\ {x.m[i].n : i \in DOMAIN x.m} = {y.m[i].n : i \in DOMAIN y.m}
                       /\ Cardinality({y.m[i].n : i \in DOMAIN y.m}) = Len(y.m)
                       /\ \A i \in DOMAIN y.m : Same(x.m[Member(x.m, y.m[i].n)].v, y.m[i].v)
         [] OTHER -> FALSE
GoodLines(c) == c.kind = "lines" /\ \A i \in DOMAIN c.val : c.val[i].k # 9
Ok(p) == Named(p) /\ p \in DOMAIN fs /\ (GoodLines(fs[p]) = TRUE)
Put(p, c) == fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN c ELSE fs[q]]
Holds(p, ok) ==
    LET t == Target(p)
        want == DOMAIN fs \cup (IF ok THEN {t} ELSE {})
    IN /\ Len(E.snap) = Cardinality(want)
       /\ {E.snap[i].p : i \in DOMAIN E.snap} = want
       /\ \A i \in DOMAIN E.snap :
            LET f == E.snap[i] IN
            IF ok /\ f.p = t
            THEN f.arr.k = 5 /\ Same([k |-> 5, a |-> fs[p].val], f.arr)
            ELSE f.same
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "put" -> Put(E.p, [kind |-> "lines", val |-> E.c])
         [] E.op = "run" ->
              LET ok == Ok(E.p) IN
              /\ E.res = (IF ok THEN "0" ELSE "fail")
              /\ (Holds(E.p, ok) = TRUE)
              /\ IF ok THEN Put(Target(E.p), [kind |-> "array", val |-> fs[E.p].val]) ELSE UNCHANGED fs
         [] OTHER -> FALSE
TNext == Step \/ (TBDone /\ UNCHANGED fs)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
