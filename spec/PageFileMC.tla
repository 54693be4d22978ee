---------------------------- MODULE PageFileMC ----------------------------
EXTENDS PageFile
CONSTANTS MaxPages, Contents
Next ==
    \/ Open
    \/ n > 0 /\ \E p \in 1..MaxPages, c \in Contents : p < MaxPages /\ Alloc(p, c)
    \/ \E p \in live : Free(p)
    \/ n > 0 /\ \E p \in free \cup {-1} : Pop(p)
    \/ \E p \in live, c \in Contents : Write(p, c)
Spec == PFInit /\ [][Next]_pvars
\* P02 as an action property: a step changes the content of at most one page, and
\* a page that stays allocated changes only by a client write
OthersUntouched ==
    [][\A p, q \in 1..(n - 1) :
          (p # q /\ content'[p] # content[p]) => content'[q] = content[q]]_pvars
NeverShrinks == [][n' >= n /\ n' <= n + 1]_pvars
ReuseBeforeGrowth == [][(n > 0 /\ n' > n) => free = {}]_pvars
=============================================================================
