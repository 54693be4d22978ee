----------------------------- MODULE MMapTrace -----------------------------
EXTENDS MMap, TraceBase
vars == <<file, cur, mode, tid, l>>
TInit == TBInit /\ MInit
\* after each call: cursor, mapped bytes and the bytes on disk
Observed == E.mem = Mem' /\ E.disk = file' /\ (mode' # "closed" => E.cur = cur')
NoPanic == E.res \in {"ok", "err", "eof"}
WriteRes(d) == IF mode = "rw" THEN E.res = "ok" /\ E.n = Len(d)
               ELSE IF d = << >> THEN NoPanic ELSE E.res = "err" /\ E.n = 0
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op \in {"open", "reopen"} -> E.res = "ok" /\ Reopen("rw")
         [] E.op = "openro" -> E.res = "ok" /\ Reopen("ro")
         \* closing twice may be refused
         [] E.op = "close" -> (IF Open THEN E.res = "ok" ELSE NoPanic) /\ Close
         [] E.op = "opendir" -> E.res = "err" /\ UNCHANGED mvars
         [] E.op = "read" /\ mode = "closed" -> E.res \in (IF E.k = 0 THEN {"ok", "err", "eof"} ELSE {"err", "eof"}) /\ E.data = << >> /\ Read(E.k)
         [] E.op = "readat" /\ mode = "closed" -> E.res \in (IF E.k = 0 THEN {"ok", "err", "eof"} ELSE {"err", "eof"}) /\ E.data = << >> /\ ReadAt
         [] E.op = "seek" /\ mode = "closed" -> NoPanic /\ UNCHANGED mvars
         [] E.op = "read" ->
              /\ E.data = ReadData(E.k)
              /\ E.res = IF ReadEOF(E.k) THEN "eof" ELSE "ok"
              /\ Read(E.k)
         [] E.op = "readat" ->
              /\ E.data = ReadAtData(E.k, E.off)
              /\ E.res = IF E.off < 0 THEN "err"
                         ELSE IF ~ReadAtOK(E.off) THEN (IF E.k = 0 THEN E.res ELSE "eof")
                         ELSE IF Len(E.data) < E.k THEN "eof" ELSE "ok"
              /\ NoPanic
              /\ ReadAt
         [] E.op = "write" -> WriteRes(E.data) /\ Write(E.data)
         [] E.op = "writeat" -> (IF E.off < 0 THEN E.res = "err"
                               \* writing nothing past the end: refusing and ignoring are both fine
                               ELSE IF E.data = << >> /\ E.off > Len(file) THEN E.res \in {"ok", "err"}
                               ELSE IF E.off >= Far THEN E.res = "err" /\ E.n = 0 ELSE WriteRes(E.data)) /\ WriteAt(E.data, E.off)
         [] E.op = "seek" ->
              /\ E.res = IF SeekOK(E.off, E.w) THEN "ok" ELSE "err"
              /\ SeekOK(E.off, E.w) => E.n = SeekPos(E.off, E.w)
              /\ Seek(E.off, E.w)
    /\ Observed
TNext == Step \/ (TBDone /\ UNCHANGED mvars)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
