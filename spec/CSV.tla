-------------------------------- MODULE CSV --------------------------------
(* What an index of a CSV data file contains.  A line is split at the commas with an even *)
(* number of quotes before them; a cell is written plainly (no quote in it) or between    *)
(* quotes with every quote inside doubled; anything else, and a line without cells, is     *)
(* not a record.  One carriage return at the end belongs to the line's end.  The first     *)
(* line names the columns; every further line is a record with at most as many cells.      *)
EXTENDS JSONLIndex, SequencesExt
QUOTE == 34
COMMA == 44
CR == 13
MaxName == 236
Trim(s) == IF s # << >> /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Quotes(s, i) == Cardinality({j \in 1..(i - 1) : s[j] = QUOTE})
Seps(s) == {i \in 1..Len(s) : s[i] = COMMA /\ Quotes(s, i) % 2 = 0}
\* the cells of a line: where each starts (from 0), how long it is, and its text as written
Cells(s) == LET p == <<0>> \o SetToSortSeq(Seps(s), <) \o <<Len(s) + 1>>
            IN [k \in 1..(Len(p) - 1) |-> [o |-> p[k], n |-> p[k + 1] - p[k] - 1, raw |-> SubSeq(s, p[k] + 1, p[k + 1] - 1)]]
Plain(raw) == \A i \in 1..Len(raw) : raw[i] # QUOTE
Inner(raw) == SubSeq(raw, 2, Len(raw) - 1)
Doubled(x) == \A i \in 1..Len(x) : (x[i] = QUOTE /\ Quotes(x, i) % 2 = 0) => (i < Len(x) /\ x[i + 1] = QUOTE)
Quoted(raw) == Len(raw) >= 2 /\ raw[1] = QUOTE /\ raw[Len(raw)] = QUOTE /\ Doubled(Inner(raw))
RECURSIVE Single(_)
Single(x) == IF x = << >> THEN << >>
             ELSE IF x[1] = QUOTE THEN <<QUOTE>> \o Single(SubSeq(x, 3, Len(x)))
             ELSE <<x[1]>> \o Single(Tail(x))
TextOf(raw) == IF Plain(raw) THEN raw ELSE Single(Inner(raw))
WellFormed(line) == LET s == Trim(line) IN s # << >> /\ \A k \in DOMAIN Cells(s) : Plain(Cells(s)[k].raw) \/ Quoted(Cells(s)[k].raw)
\* what a line holds, or a mark that it holds no record
LineCells(line) == IF WellFormed(line)
                   THEN LET cs == Cells(Trim(line)) IN [k \in DOMAIN cs |-> [o |-> cs[k].o, n |-> cs[k].n, x |-> TextOf(cs[k].raw)]]
                   ELSE << >>
-----------------------------------------------------------------------------
\* the type of a cell's text
TrueWords == {<<116>>, <<84>>, <<116, 114, 117, 101>>, <<84, 82, 85, 69>>, <<84, 114, 117, 101>>}
FalseWords == {<<102>>, <<70>>, <<102, 97, 108, 115, 101>>, <<70, 65, 76, 83, 69>>, <<70, 97, 108, 115, 101>>}
\* numbers, as Go's floating-point literals are written, with a sign: decimal ones, hexadecimal ones with a
\* binary exponent, an underscore between two digits (or behind the 0x), the infinities and not-a-number
Digit(c) == c \in 48..57
Sign(c) == c \in {43, 45}
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
\* state 0 start, 2 digits, 3 point without digits before, 4 fraction, 5 exponent, 6 its sign, 7 its digits
NumStep(q, c, hex) ==
    LET D(x) == Digit(x) \/ (hex /\ Lower(x) \in 97..102)
        e == IF hex THEN 112 ELSE 101
    IN CASE q \in {0, 2} /\ D(c) -> 2
         [] q = 0 /\ c = 46 -> 3
         [] q = 2 /\ c = 46 -> 4
         [] q \in {3, 4} /\ D(c) -> 4
         [] q \in {2, 4} /\ Lower(c) = e -> 5
         [] q = 5 /\ Sign(c) -> 6
         [] q \in {5, 6, 7} /\ Digit(c) -> 7
         [] OTHER -> 9
RECURSIVE NumRun(_, _, _, _)
NumRun(x, i, q, hex) == IF i > Len(x) THEN q ELSE NumRun(x, i + 1, NumStep(q, x[i], hex), hex)
Infinite == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
NotANumber == <<110, 97, 110>>
IsNumber(x) ==
    LET u == IF x # << >> /\ Sign(x[1]) THEN Tail(x) ELSE x
        hex == Len(u) > 1 /\ u[1] = 48 /\ Lower(u[2]) = 120
        D(c) == Digit(c) \/ (hex /\ Lower(c) \in 97..102)
        low == [i \in 1..Len(u) |-> Lower(u[i])]
        under == \A i \in 1..Len(u) : u[i] = 95 => /\ i > 1 /\ i < Len(u) /\ D(u[i + 1])
                                                     /\ (D(u[i - 1]) \/ (hex /\ i = 3))
        digits == SelectSeq(IF hex THEN SubSeq(u, 3, Len(u)) ELSE u, LAMBDA c : c # 95)
    IN \/ low \in Infinite
       \/ low = NotANumber /\ u = x
       \/ under /\ NumRun(digits, 1, 0, hex) \in (IF hex THEN {7} ELSE {2, 4, 7})
\* nums: a set of [x: text, v: value] of the numbers, << >> for those no double can hold
TypeOf(x, nums) == IF x = << >> THEN 7
                   ELSE IF IsNumber(x) /\ [x |-> x, v |-> << >>] \notin nums THEN 3
                   ELSE IF x \in TrueWords \cup FalseWords THEN 6 ELSE 0
-----------------------------------------------------------------------------
\* what the lines 2..m+1 put into the index; lines is a sequence of [o, s], cs their cells
AllCells(lines) == [i \in DOMAIN lines |-> LineCells(lines[i].s)]
BadHeader(cs) == cs[1] = << >>
BadRecord(cs, i) == cs[i] = << >> \/ Len(cs[i]) > Len(cs[1]) \/ \E k \in DOMAIN cs[i] : Len(cs[1][k].x) > MaxName
ValueOf(x, nums) == CASE TypeOf(x, nums) = 7 -> << >>
                      [] TypeOf(x, nums) = 6 -> IF x \in TrueWords THEN <<1>> ELSE <<0>>
                      [] TypeOf(x, nums) = 3 -> (CHOOSE e \in nums : e.x = x).v
                      [] OTHER -> x
CsvUsesOf(lines, cs, i, nums) ==
    [k \in DOMAIN cs[i] |->
       LET c == cs[i][k] IN
          [n |-> cs[1][k].x, t |-> TypeOf(c.x, nums), rec |-> <<lines[i].o, Len(lines[i].s)>>,
           es |-> <<[v |-> ValueOf(c.x, nums), o |-> lines[i].o + c.o, len |-> c.n, tot |-> 0]>>]]
CsvUsesTo(lines, cs, m, nums) == FoldLeft(\o, << >>, [i \in 1..m |-> CsvUsesOf(lines, cs, i + 1, nums)])
CsvEnd(lines, m) == lines[m + 1].o + Len(lines[m + 1].s) + 1
=============================================================================
