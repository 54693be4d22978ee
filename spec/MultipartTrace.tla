--------------------------- MODULE MultipartTrace ---------------------------
(* Traces of the client's requests for ranges against servers of every kind, and of its   *)
(* parser of multipart bodies on bodies cut into chunks and cut short.                     *)
EXTENDS Multipart, TraceBase
vars == <<tid, l>>
TInit == TBInit
AllValid(e) == \A i \in 1..Len(e.rs) : Valid(e.rs[i], Len(Cfg.file))
RightChunks(e) ==
    /\ Len(e.chunks) = Len(e.rs) /\ AllValid(e)
    /\ \A i \in 1..Len(e.rs) :
         /\ e.chunks[i][1] = Bytes(Cfg.file, e.rs[i])
         /\ e.chunks[i][2] = Len(Cfg.file)
    /\ e.len \in {0, Len(Cfg.file)}
Ranges(e) ==
    \/ e.res = "ok" /\ RightChunks(e)
    \/ e.res = "err" /\ ~(e.good /\ AllValid(e) /\ e.len \in {0, Len(Cfg.file)})
Parsed(e) ==
    /\ IsPrefix(e.got, e.parts) /\ Len(e.got) <= e.has
    /\ e.whole => e.res = "ok" /\ e.got = e.parts
    /\ e.res \in {"ok", "err"}
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "ranges" -> (Ranges(E) = TRUE)
         [] E.op = "parse" -> (Parsed(E) = TRUE)
         [] OTHER -> FALSE
TNext == Step \/ TBDone
TSpec == TInit /\ [][TNext]_vars
=============================================================================
