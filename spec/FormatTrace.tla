----------------------------- MODULE FormatTrace -----------------------------
(* The bytes of files the indexer and the vector store wrote, read as Format says, and    *)
(* files made as Format says (FormatGen), read and continued by the indexer.               *)
EXTENDS JSONLTrace, FormatFile
NameBytes(n) == LET i == CHOOSE i \in 1..Len(Cfg.names) : Cfg.names[i][1] = n IN Cfg.names[i][2]
FStep ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "sync" ->
              /\ E.res = "ok"
              /\ done' = Complete(E.vis)
              /\ (File(E.pages, Lines, Search, Complete(E.vis), NameBytes) = TRUE)
         \* a file made as described (what it holds: m lines) is read
         [] E.op = "given" ->
              /\ done' = E.m
              /\ (File(E.pages, Lines, Search, E.m, NameBytes) = TRUE)
              /\ E.res = "ok" /\ E.off = Watermark(Lines, E.m) /\ E.entries = E.m
              /\ (Holds(E.idx, E.m) = TRUE)
         [] E.op = "vec" ->
              /\ E.res = "ok" /\ UNCHANGED done
              /\ (Vectors(E.pages, E.vecs) = TRUE)
         [] OTHER -> FALSE
FNext == FStep \/ (TBDone /\ UNCHANGED done)
FSpec == TInit /\ [][FNext]_vars
=============================================================================
