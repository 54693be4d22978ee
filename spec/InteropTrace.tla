---------------------------- MODULE InteropTrace ----------------------------
(* Traces of the client reading what the Go side wrote.  A tree: the iterator moves over  *)
(* the keys Go stored, as IterTrace says, and so do lookups.  An index file: the file       *)
(* record, the fields with their types and every slot's record and entries, in order, are   *)
(* the ones Go reads from the same bytes.  Varints: as Go encodes them.                     *)
EXTENDS IterTrace
\* fields in the order of their first slots, each with its types in the order of the slots
RECURSIVE Fields(_, _)
Fields(ss, acc) ==
    IF ss = << >> THEN acc
    ELSE LET s == Head(ss)
             at == {i \in 1..Len(acc) : acc[i][1] = s.n}
         IN Fields(Tail(ss), IF at = {} THEN Append(acc, <<s.n, <<s.t>>>>)
                             ELSE [acc EXCEPT ![CHOOSE i \in at : TRUE] = <<@[1], Append(@[2], s.t)>>])
\* a slot of a number answers for every number type (its values are doubles)
NumberLike == {1, 2, 3}
Matches(s) == Len(SelectSeq(Cfg.slots, LAMBDA x : x.n = s.n /\ (x.t = s.t \/ (s.t = 3 /\ x.t \in NumberLike))))
FirstMatch(s) == LET ms == {i \in 1..Len(Cfg.slots) : Cfg.slots[i].n = s.n /\ (Cfg.slots[i].t = s.t \/ (s.t = 3 /\ Cfg.slots[i].t \in NumberLike))}
                 IN Cfg.slots[MinOf(ms)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Slot(e) ==
    LET s == Cfg.slots[e.i]
        m == FirstMatch(s)
    IN /\ e.count = Matches(s)
       /\ e.w = m.w /\ e.total = m.total /\ e.raw = m.raw
       /\ e.fwd = m.es /\ e.back = Rev(m.es)
Meta(e) == IF Cfg.meta.has THEN e.res = "ok" /\ e.v = Cfg.meta.v /\ e.f = Cfg.meta.f /\ e.off = Cfg.meta.off /\ e.n = Cfg.meta.n
           ELSE e.res \in {"ok", "err"}
Var(e) == LET v == Cfg.vars[e.i] IN e.dec = v.v /\ e.n = Len(v.b) /\ e.enc = v.b
Find(e) == LET i == LB(e.k) IN IF i > N THEN e.found = 0 ELSE e.found = Seq0[i][1] /\ e.p = Seq0[i][2]
XStep ==
    IF HasEv /\ E.op \in {"iter", "next", "prev"} THEN Step
    ELSE /\ HasEv /\ Consume /\ UNCHANGED <<map, pos, started>>
         /\ CASE E.op = "meta" -> (Meta(E) = TRUE)
              [] E.op = "headers" -> E.res = "ok" /\ E.fields = Fields(Cfg.slots, << >>)
              [] E.op = "slot" -> E.res = "ok" /\ (Slot(E) = TRUE)
              [] E.op = "varint" -> E.res = "ok" /\ (Var(E) = TRUE)
              [] E.op = "find" -> E.res = "ok" /\ (Find(E) = TRUE)
              [] E.op = "first" -> E.res = "ok" /\ E.k = Seq0[1][1]
              [] E.op = "last" -> E.res = "ok" /\ E.k = Seq0[N][1]
              [] OTHER -> FALSE
XNext == XStep \/ (TBDone /\ UNCHANGED <<map, pos, started>>)
XSpec == TInit /\ [][XNext]_vars
=============================================================================
