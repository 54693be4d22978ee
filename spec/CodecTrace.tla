------------------------------ MODULE CodecTrace ------------------------------
(* What both sides' functions for numbers, keys, nodes and metadata yielded, against Codec.  *)
EXTENDS Codec, TraceBase
VARIABLE n
vars == <<n, tid, l>>
TInit == TBInit /\ n = 0
\* the data that keys of trees of width 0 point into: byte i (from 0)
DataAt(i) == Mod(7 * i + i \div 256, 256)
DataVal(o, k) == [i \in 1..k |-> DataAt(Limb(o, 1) + 65536 * Limb(o, 2) + i - 1)]
SamePair(p, q) == Same(p.o, q.o) /\ Same(p.n, q.n)
AllSame(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Same(xs[i], ys[i])
AllPairs(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : SamePair(xs[i], ys[i])
Value(k, w) == IF w = 0 THEN DataVal(k.o, Limb(k.n, 1)) ELSE k.v
SameNode(a, b, w) ==
    /\ AllPairs(a.ks, b.ks) /\ \A i \in 1..Len(a.ks) : b.ks[i].v = Value(a.ks[i], w)
    /\ AllPairs(a.rs, b.rs) /\ AllSame(a.cs, b.cs)
SameVNode(a, b) ==
    /\ AllPairs(a.ids, b.ids) /\ \A i \in 1..Len(a.ids) : Same(a.ids[i].x, b.ids[i].x)
    /\ AllSame(a.cs, b.cs) /\ Same(a.dim, b.dim) /\ a.vs = b.vs
\* keys in order: how many come before the one sought
Before(ks, k) == Cardinality({i \in 1..Len(ks) : CmpKeys(ks[i], k) < 0})
Decoded(e) ==
    LET d == TLCEval(Dec(e.b, 1))
    IN IF ~d.ok THEN e.res = "err" \/ e.read <= 0
       ELSE e.res = "ok" /\ e.read = d.next - 1 /\ (Exact(d.x) => Same(e.x, d.x))
Right(e) ==
    CASE e.op = "size" -> e.res = "ok" /\ e.size = Len(Enc(e.x))
      [] e.op = "enc" -> e.res = "ok" /\ e.b = Enc(e.x)
      [] e.op = "dec" -> Decoded(e)
      [] e.op = "cmp" -> e.res = "ok" /\ e.c = CmpKeys(e.a, e.k)
      [] e.op = "cmpids" -> e.res = "ok" /\ e.c = CmpNum(e.x, e.y)
      [] e.op = "cmpbytes" -> e.res = "ok" /\ e.c = CmpBytes(e.x, e.y)
      [] e.op = "search" ->
           e.res = "ok" /\ e.at = Before(e.ks, e.k) /\ e.found = (\E i \in 1..Len(e.ks) : SameKey(e.ks[i], e.k))
      [] e.op = "node" ->
           e.res = "ok" /\ e.b = EncNode(e.nd, e.w) /\ e.size = Len(e.b) /\ e.back.leaf = e.nd.leaf /\ SameNode(e.nd, e.back, e.w)
      [] e.op = "tnode" -> e.res = "ok" /\ e.back.leaf = e.nd.leaf /\ SameNode(e.nd, e.back, e.w)
      [] e.op = "vnode" ->
           e.res = "ok" /\ e.b = EncVNode(e.nd) /\ e.size = Len(e.b) /\ e.back.leaf = e.nd.leaf /\ SameVNode(e.nd, e.back)
      [] e.op = "fmeta" ->
           /\ e.res = "ok" /\ e.b = EncFileMeta(e.m) /\ e.back.ver = e.m.ver /\ e.back.fmt = e.m.fmt
           /\ Same(e.back.off, e.m.off) /\ Same(e.back.entries, e.m.entries)
      [] e.op = "tfmeta" ->
           /\ e.res = "ok" /\ e.back.ver = e.m.ver /\ e.back.fmt = e.m.fmt
           /\ Same(e.back.off, e.m.off) /\ (Exact(e.m.entries) => Same(e.back.entries, e.m.entries))
      [] e.op = "imeta" ->
           /\ e.res = "ok" /\ e.b = EncIndexMeta(e.m) /\ e.back.t = e.m.t /\ e.back.w = e.m.w
           /\ e.back.name = e.m.name /\ Same(e.back.total, e.m.total)
      [] e.op = "timeta" ->
           /\ e.res = "ok" /\ e.back.t = e.m.t /\ e.back.w = e.m.w
           /\ e.back.name = e.m.name /\ (Exact(e.m.total) => Same(e.back.total, e.m.total))
      \* metadata cut short, or of a format there is none of
      [] e.op = "short" -> e.res = "err"
      [] OTHER -> FALSE
Step == HasEv /\ Consume /\ n' = n + 1 /\ (Right(E) = TRUE)
TNext == Step \/ (TBDone /\ UNCHANGED n)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
