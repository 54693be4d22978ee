------------------------------ MODULE PageFile ------------------------------
(* The page allocator of an index file (pkg/pagefile).  Page 0 is the page     *)
(* directory holding the persistent list of free pages; every other page is    *)
(* either owned by a client (live) or free.                                     *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANT Capacity       \* how many free pages the directory can record (512)

VARIABLES
    n,        \* pages in the file (0: nothing there yet)
    live,     \* pages handed out and not freed
    free,     \* pages freed and not handed out again (this process)
    disk,     \* the free pages a process opening the file now would see
    content   \* what each page 1..n-1 holds

pvars == <<n, live, free, disk, content>>

PFInit == n = 0 /\ live = {} /\ free = {} /\ disk = {} /\ content = << >>

\* Opening an empty file creates the directory page; opening a well-formed file
\* changes nothing and recovers the free list from the file.
Open ==
    /\ n' = IF n = 0 THEN 1 ELSE n
    /\ free' = disk
    /\ UNCHANGED <<live, disk, content>>

\* A free page is used before the file grows; growth is by exactly one page at
\* the end.  The page then holds the given bytes, zero padded (c stands for the
\* whole page), and no other page changes.
Alloc(p, c) ==
    /\ \/ free # {} /\ p \in free /\ n' = n
       \/ free = {} /\ p = n /\ n' = n + 1
    /\ live' = live \cup {p}
    /\ free' = free \ {p}
    /\ disk' = free'
    /\ content' = [q \in 1..(n' - 1) |-> IF q = p THEN c ELSE content[q]]

\* Many empty pages in a row: the free ones first, then the file grows page by page.
AllocMany(ps, c) ==
    LET k == Len(ps)
        f == Cardinality(free)
        S == {ps[i] : i \in 1..k}
        reused == {ps[i] : i \in 1..(IF k < f THEN k ELSE f)}
    IN /\ Cardinality(S) = k
       /\ reused \subseteq free
       /\ \A i \in (f + 1)..k : ps[i] = n + (i - f) - 1
       /\ n' = n + (IF k > f THEN k - f ELSE 0)
       /\ live' = live \cup S
       /\ free' = free \ reused
       /\ disk' = free'
       /\ content' = [q \in 1..(n' - 1) |-> IF q \in S THEN c ELSE content[q]]

Free(p) ==
    /\ p \in live
    /\ Cardinality(free) < Capacity
    /\ live' = live \ {p}
    /\ free' = free \cup {p}
    /\ disk' = free'
    /\ UNCHANGED <<n, content>>

\* A page can be taken off the list of free pages as it is (p = -1: there is none).
Pop(p) ==
    /\ p \in (IF free = {} THEN {-1} ELSE free)
    /\ live' = live \cup ({p} \ {-1})
    /\ free' = free \ {p}
    /\ disk' = free'
    /\ UNCHANGED <<n, content>>

\* Freeing is refused, with no effect, for a page that is not in use (already free,
\* the directory page, a page the file doesn't have), for an address inside a page,
\* and when the directory is full.
FreeMustFail(p) == p \notin live \/ Cardinality(free) >= Capacity

Rejected == UNCHANGED pvars

Write(p, c) ==
    /\ p \in live
    /\ content' = [content EXCEPT ![p] = c]
    /\ UNCHANGED <<n, live, free, disk>>

-----------------------------------------------------------------------------
TypeOK ==
    /\ n \in Nat
    /\ DOMAIN content = 1..(n - 1) \/ (n <= 1 /\ content = << >>)

\* P01: a page is never handed out twice, the directory page never, a free page is
\* never in use, and the file remembers exactly the free pages.
Exclusive == live \cap free = {} /\ 0 \notin live \cup free
Partition == n > 0 => live \cup free = 1..(n - 1)
Durable   == disk = free
Bounded   == Cardinality(free) <= Capacity
=============================================================================
