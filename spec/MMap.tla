-------------------------------- MODULE MMap --------------------------------
(* The memory mapped file (pkg/mmap): a flat byte file with one cursor, which   *)
(* grows when a write passes its end.  Bytes are abstracted to units.  It may be  *)
(* opened for reading only, and closed.                                          *)
EXTENDS Integers, Sequences
VARIABLES file, cur,
          mode       \* "rw", "ro" (opened for reading only) or "closed"
mvars == <<file, cur, mode>>
MInit == file = << >> /\ cur = 0 /\ mode = "closed"
Open == mode # "closed"
\* an offset as far as offsets go: nothing can be written there
Far == 1000000
\* what is mapped
Mem == IF Open THEN file ELSE << >>

Min(a, b) == IF a < b THEN a ELSE b
Slice(off, k) == IF Open THEN SubSeq(file, off + 1, Min(off + k, Len(file))) ELSE << >>
\* the file with d written at off; a gap is filled with zeros
Put(off, d) ==
    [i \in 1..(IF off + Len(d) > Len(file) /\ Len(d) > 0 THEN off + Len(d) ELSE Len(file)) |->
        IF i > off /\ i <= off + Len(d) THEN d[i - off]
        ELSE IF i <= Len(file) THEN file[i] ELSE 0]

\* Read: what is left, up to k units; end-of-file exactly when fewer than asked
ReadData(k) == Slice(cur, k)
ReadEOF(k) == Len(ReadData(k)) < k
Read(k) == cur' = cur + Len(ReadData(k)) /\ UNCHANGED <<file, mode>>

ReadAtOK(off) == off >= 0 /\ off <= Len(file)
ReadAtData(k, off) == IF ReadAtOK(off) THEN Slice(off, k) ELSE << >>
ReadAt == UNCHANGED mvars

\* only a file opened for writing is written
Write(d) == IF mode = "rw" THEN file' = Put(cur, d) /\ cur' = cur + Len(d) /\ UNCHANGED mode ELSE UNCHANGED mvars
WriteAt(d, off) == IF off < 0 \/ mode # "rw" \/ off >= Far THEN UNCHANGED mvars ELSE file' = Put(off, d) /\ UNCHANGED <<cur, mode>>

SeekPos(off, whence) == CASE whence = 0 -> off [] whence = 1 -> cur + off [] whence = 2 -> Len(file) + off
                          [] OTHER -> -1
SeekOK(off, whence) == Open /\ whence \in 0..2 /\ SeekPos(off, whence) \in 0..Len(file)
Seek(off, whence) == IF SeekOK(off, whence) THEN cur' = SeekPos(off, whence) /\ UNCHANGED <<file, mode>>
                                            ELSE UNCHANGED mvars
\* closing and opening again: the content is on disk, the cursor at the start
Reopen(m) == cur' = 0 /\ mode' = m /\ UNCHANGED file
Close == cur' = 0 /\ mode' = "closed" /\ UNCHANGED file

CursorInFile == cur \in 0..Len(file)
=============================================================================
