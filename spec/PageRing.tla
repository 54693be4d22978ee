----------------------------- MODULE PageRing -----------------------------
(* The allocator as the code implements it: a ring of Capacity slots holding   *)
(* page addresses (0 = empty), a head and a count; every change rewrites the   *)
(* directory page as an array terminated by the first 0.  TLC checks that this  *)
(* refines PageFile - the wrap-around of the ring is where it is easy to err.   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Capacity, MaxPages
VARIABLES n, live, ring, head, count, dir
rvars == <<n, live, ring, head, count, dir>>

Oldest(h, c) == (h + Capacity - c) % Capacity
\* what writing the directory puts on disk
Image(r, h, c) == [i \in 0..(Capacity - 1) |->
                     IF i < c THEN r[(Oldest(h, c) + i) % Capacity] ELSE 0]
FreeSet == {ring[(Oldest(head, count) + i) % Capacity] : i \in 0..(count - 1)}
\* what a reader of the directory finds: entries up to the first 0
DirCount == IF \A i \in 0..(Capacity - 1) : dir[i] # 0 THEN Capacity
            ELSE CHOOSE i \in 0..(Capacity - 1) : dir[i] = 0 /\ \A j \in 0..(i - 1) : dir[j] # 0
DirSet == {dir[i] : i \in 0..(DirCount - 1)}

Zero == [i \in 0..(Capacity - 1) |-> 0]
Init == n = 0 /\ live = {} /\ ring = Zero /\ head = 0 /\ count = 0 /\ dir = Zero

Open ==
    /\ n' = IF n = 0 THEN 1 ELSE n
    /\ ring' = [i \in 0..(Capacity - 1) |-> IF i < DirCount THEN dir[i] ELSE 0]
    /\ head' = DirCount % Capacity
    /\ count' = DirCount
    /\ UNCHANGED <<live, dir>>

Alloc ==
    /\ n > 0
    /\ IF count = 0
       THEN n < MaxPages /\ n' = n + 1 /\ live' = live \cup {n} /\ UNCHANGED <<ring, head, count, dir>>
       ELSE LET t == Oldest(head, count) IN
            /\ live' = live \cup {ring[t]}
            /\ ring' = [ring EXCEPT ![t] = 0]
            /\ count' = count - 1
            /\ dir' = Image(ring', head, count')
            /\ UNCHANGED <<n, head>>

Pop ==
    /\ n > 0 /\ count > 0
    /\ LET t == Oldest(head, count) IN
       /\ live' = live \cup {ring[t]}
       /\ ring' = [ring EXCEPT ![t] = 0]
    /\ count' = count - 1
    /\ dir' = Image(ring', head, count')
    /\ UNCHANGED <<n, head>>

Free(p) ==
    /\ p > 0 /\ p < n
    /\ count < Capacity
    /\ \A i \in 0..(Capacity - 1) : ring[i] # p
    /\ ring' = [ring EXCEPT ![head] = p]
    /\ head' = (head + 1) % Capacity
    /\ count' = count + 1
    /\ dir' = Image(ring', head', count')
    /\ live' = live \ {p}
    /\ UNCHANGED n

Next == Open \/ Alloc \/ Pop \/ \E p \in -1..(MaxPages + 1) : Free(p)
Spec == Init /\ [][Next]_rvars

Content == [q \in 1..(n - 1) |-> "x"]
Abs == INSTANCE PageFile WITH free <- FreeSet, disk <- DirSet, content <- Content
RefInit == Abs!PFInit
RefNext == Abs!Open \/ (\E p \in 1..MaxPages : Abs!Alloc(p, "x")) \/ (\E p \in live : Abs!Free(p)) \/ (\E p \in 1..MaxPages : Abs!Pop(p))
Refines == RefInit /\ [][RefNext]_<<n, live, FreeSet, DirSet>>
Inv == Abs!Exclusive /\ Abs!Partition /\ Abs!Durable /\ Abs!Bounded
=============================================================================
