----------------------------- MODULE Multipart -----------------------------
(* What a client may make of a server's answer to a request for ranges of a file.        *)
(* A file is a sequence of bytes; a range <<s, e>> names its bytes s..e, from 0, both      *)
(* included, cut at the end of the file.  Whatever the server does, the answer is all the  *)
(* ranges asked for, in order and with the right bytes, or an error.                       *)
EXTENDS Integers, Sequences
Valid(r, n) == r[1] <= r[2] /\ r[1] < n
Min(a, b) == IF a < b THEN a ELSE b
Bytes(file, r) == SubSeq(file, r[1] + 1, Min(r[2], Len(file) - 1) + 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
