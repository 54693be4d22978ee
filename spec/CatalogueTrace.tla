--------------------------- MODULE CatalogueTrace ---------------------------
EXTENDS Catalogue, TraceBase
VARIABLE opened
vars == <<fm, cat, opened, tid, l>>
TInit == TBInit /\ CInit /\ opened = FALSE
\* the catalogue as a fresh walk reads it, and the file record
Seen == /\ Len(E.cat) = Len(cat')
        /\ \A i \in 1..Len(cat') :
             LET x == E.cat[i] y == cat'[i] IN
             x.n = y.n /\ x.t = y.t /\ x.total = y.total /\ x.root = y.root /\ x.w = Width(y.t)
        /\ fm'.fmt # "none" =>
             E.fm.fmt = fm'.fmt /\ E.fm.ver = fm'.ver /\ E.fm.off = fm'.off /\ E.fm.ent = fm'.ent
Step ==
    /\ HasEv /\ Consume
    /\ CASE E.op = "open" /\ Compatible(E.f) -> E.res = "ok" /\ Open(E.f) /\ opened' = TRUE
         \* another format or version is refused and the file keeps its bytes
         [] E.op = "open" /\ ~Compatible(E.f) -> E.res = "err" /\ E.same /\ UNCHANGED cvars /\ opened' = FALSE
         [] E.op = "index" /\ Where(E.n, E.t) # {} ->
              /\ E.res = "ok" /\ E.w = Width(E.t) /\ Where(E.n, E.t) = {E.at}
              /\ E.total = cat[E.at].total /\ E.gn = E.n /\ E.gt = E.t
              /\ Lookup(E.n, E.t) /\ UNCHANGED opened
         \* names which cannot be recorded are refused without a trace
         [] E.op = "index" /\ Where(E.n, E.t) = {} /\ (E.len > 246 \/ (E.len > 200 /\ E.res = "err")) ->
              E.res = "err" /\ UNCHANGED cvars /\ UNCHANGED opened
         [] E.op = "index" /\ Where(E.n, E.t) = {} /\ E.len <= 246 /\ ~(E.len > 200 /\ E.res = "err") ->
              /\ E.res = "ok" /\ E.w = Width(E.t) /\ E.at = Len(cat) + 1
              /\ E.total = "0" /\ E.gn = E.n /\ E.gt = E.t
              /\ Create(E.n, E.t) /\ UNCHANGED opened
         [] E.op = "total" -> E.res = "ok" /\ SetTotal(E.at, E.v) /\ UNCHANGED opened
         [] E.op = "root" -> E.res = "ok" /\ SetRoot(E.at, E.v) /\ UNCHANGED opened
         [] E.op = "file" -> E.res = "ok" /\ SetFile(E.ver, E.off, E.ent) /\ UNCHANGED opened
         [] E.op = "names" -> E.res = "ok" /\ E.names = Names /\ UNCHANGED cvars /\ UNCHANGED opened
         [] E.op = "empty" -> E.res = "ok" /\ E.b = (cat = << >>) /\ UNCHANGED cvars /\ UNCHANGED opened
         \* records cut short are refused, not trusted
         [] E.op = "short" -> E.res = "err" /\ UNCHANGED cvars /\ UNCHANGED opened
    /\ Seen
TNext == Step \/ (TBDone /\ UNCHANGED <<fm, cat, opened>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
