------------------------------- MODULE Query -------------------------------
(* What a client query returns.  The data file is a sequence of records; for a field   *)
(* and a type the index holds one entry per record with such a value: <<v, r>>, v the   *)
(* value's bytes, r the record's number.  A query names a field, a value and a          *)
(* comparison (or several on the same field: all must hold), a direction, a limit and a  *)
(* selection of fields.                                                                  *)
EXTENDS Integers, Sequences
\* order of byte strings
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLess(a, b, i + 1)
\* order of numbers, given as the eight bytes of an IEEE double, most significant first
Zero(a) == a[1] \in {0, 128} /\ \A i \in 2..8 : a[i] = 0
Negative(a) == a[1] >= 128 /\ ~Zero(a)
NumLess(a, b) ==
    IF Zero(a) /\ Zero(b) THEN FALSE
    ELSE IF Negative(a) /\ ~Negative(b) THEN TRUE
    ELSE IF Negative(a) /\ Negative(b) THEN LexLess(b, a, 1)
    ELSE IF Negative(b) THEN FALSE
    ELSE IF Zero(a) THEN ~Zero(b)
    ELSE IF Zero(b) THEN FALSE
    ELSE LexLess(a, b, 1)
Less(t, a, b) == IF t = 3 THEN NumLess(a, b) ELSE LexLess(a, b, 1)
Same(t, a, b) == ~Less(t, a, b) /\ ~Less(t, b, a)
Holds(t, x, cmp, v) ==
    CASE cmp = "==" -> Same(t, x, v)
      [] cmp = "<"  -> Less(t, x, v)
      [] cmp = "<=" -> ~Less(t, v, x)
      [] cmp = ">"  -> Less(t, v, x)
      [] cmp = ">=" -> ~Less(t, x, v)
\* entries in order of value, records of equal value as they stand in the file
InOrder(t, es) ==
    \A i \in 1..(Len(es) - 1) :
        \/ Less(t, es[i][1], es[i + 1][1])
        \/ ~Less(t, es[i + 1][1], es[i][1]) /\ es[i][2] < es[i + 1][2]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
\* conds: sequence of [cmp, v]; lim < 0: no limit
Matching(t, es, conds) ==
    LET P(e) == \A i \in 1..Len(conds) : Holds(t, e[1], conds[i].cmp, conds[i].v)
    IN SelectSeq(es, P)
Answer(t, es, conds, dir, lim) ==
    LET m == Matching(t, es, conds)
        \* the answers to an equality are all alike: they come as they stand in the file
    IN Take(IF dir = "DESC" /\ conds[1].cmp # "==" THEN Reverse(m) ELSE m, lim)
\* a record is a set of <<key, value>>; an empty selection keeps everything
Project(rec, sel) == IF sel = {} THEN rec ELSE {p \in rec : p[1] \in sel}
=============================================================================
