-------------------------------- MODULE J2J --------------------------------
(* The converter of JSON lines: a file whose name holds .jsonl becomes an array of its      *)
(* lines' values, in a file next to it with .json in place of .jsonl; nothing else changes, *)
(* and nothing at all when a line is no JSON value.                                          *)
(* A path is <<folder, name>>, a name a sequence of parts; files: path -> content, a content *)
(* is "none", a sequence of lines, or [arr: lines].                                          *)
EXTENDS Integers, Sequences, FiniteSets
EXT == ".jsonl"
Target(p) == <<p[1], [i \in DOMAIN p[2] |-> IF p[2][i] = EXT THEN ".json" ELSE p[2][i]]>>
Named(p) == \E i \in DOMAIN p[2] : p[2][i] = EXT
Lines(c) == c.kind = "lines"
Good(c) == Lines(c) /\ \A i \in DOMAIN c.val : c.val[i] # "bad"
\* what a run on p does to the files fs, and whether it succeeds
Succeeds(fs, p) == Named(p) /\ p \in DOMAIN fs /\ Good(fs[p])
After(fs, p) == IF Succeeds(fs, p)
                THEN [q \in DOMAIN fs \cup {Target(p)} |-> IF q = Target(p) THEN [kind |-> "array", val |-> fs[p].val] ELSE fs[q]]
                ELSE fs
=============================================================================
