----------------------------- MODULE Catalogue -----------------------------
(* The catalogue of an index file (pkg/appendable): the file record (version, format, *)
(* how much data is indexed, how many records) and one index per (field, type), in     *)
(* order of first use.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES fm,        \* file record, [fmt, ver, off, ent]; fmt "none" before the file exists
          cat        \* sequence of [n, t, total, root]
cvars == <<fm, cat>>
CInit == fm = [fmt |-> "none", ver |-> 0, off |-> "0", ent |-> "0"] /\ cat = << >>
Version == 1
\* field types: 0 string 1 int64 2 uint64 3 float64 4 object 5 array 6 boolean 7 null 8 trigram 9 bigram 10 unigram
Width(t) == CASE t \in {1, 2, 3} -> 9 [] t = 6 -> 2 [] t = 7 -> 1 [] t = 8 -> 4 [] t = 9 -> 3 [] t = 10 -> 2 [] OTHER -> 0
Where(n, t) == {i \in 1..Len(cat) : cat[i].n = n /\ cat[i].t = t}
Compatible(f) == fm.fmt = "none" \/ (fm.fmt = f /\ fm.ver = Version)
\* opening: a new file is given the format of its first user, an existing one is checked and left alone
Open(f) == IF fm.fmt = "none" THEN fm' = [fmt |-> f, ver |-> Version, off |-> "0", ent |-> "0"] /\ cat' = cat
           ELSE UNCHANGED cvars
Entry(n, t) == [n |-> n, t |-> t, total |-> "0", root |-> "0:0"]
\* looking an index up gives the one of this field and type, or makes it at the end
Lookup(n, t) == Where(n, t) # {} /\ UNCHANGED cvars
Create(n, t) == Where(n, t) = {} /\ cat' = Append(cat, Entry(n, t)) /\ UNCHANGED fm
SetTotal(i, v) == cat' = [cat EXCEPT ![i].total = v] /\ UNCHANGED fm
SetRoot(i, v) == cat' = [cat EXCEPT ![i].root = v] /\ UNCHANGED fm
SetFile(v, o, e) == fm' = [fm EXCEPT !.ver = v, !.off = o, !.ent = e] /\ UNCHANGED cat
\* distinct field names in order of first use
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = << >> THEN << >>
                 ELSE IF s[1].n \in seen THEN Uniq(Tail(s), seen)
                 ELSE <<s[1].n>> \o Uniq(Tail(s), seen \cup {s[1].n})
Names == Uniq(cat, {})
OneEach == \A i, j \in 1..Len(cat) : cat[i].n = cat[j].n /\ cat[i].t = cat[j].t => i = j
=============================================================================
