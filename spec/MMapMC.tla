------------------------------ MODULE MMapMC ------------------------------
(* Exhaustive exploration of small files; every transition is also printed, and *)
(* the driver performs each of them on the real memory mapped file.             *)
EXTENDS MMap, TLC, Json
CONSTANTS MaxLen, Vals
VARIABLE op
vars == <<file, cur, mode, op>>
View == <<file, cur, mode>>
Data == UNION {[1..k -> Vals] : k \in 0..2}
Init == MInit /\ op = [o |-> "init"]
Next ==
    \/ \E k \in 0..(MaxLen + 1) : Read(k) /\ op' = [o |-> "read", k |-> k]
    \/ \E k \in 0..(MaxLen + 1), off \in -1..(MaxLen + 1) : ReadAt /\ op' = [o |-> "readat", k |-> k, off |-> off]
    \/ \E k \in 0..2, off \in {-Far, Far} : ReadAt /\ op' = [o |-> "readat", k |-> k, off |-> off]
    \/ \E d \in Data, off \in {-Far, Far} : WriteAt(d, off) /\ op' = [o |-> "writeat", d |-> d, off |-> off]
    \/ \E off \in {-Far, Far}, w \in 0..3 : Seek(off, w) /\ op' = [o |-> "seek", off |-> off, w |-> w]
    \/ \E d \in Data : cur + Len(d) <= MaxLen /\ Write(d) /\ op' = [o |-> "write", d |-> d]
    \/ \E d \in Data, off \in -1..MaxLen : off + Len(d) <= MaxLen /\ WriteAt(d, off) /\ op' = [o |-> "writeat", d |-> d, off |-> off]
    \/ \E off \in -(MaxLen + 1)..(MaxLen + 1), w \in 0..3 : Seek(off, w) /\ op' = [o |-> "seek", off |-> off, w |-> w]
    \/ Reopen("rw") /\ op' = [o |-> "reopen"]
    \/ Reopen("ro") /\ op' = [o |-> "openro"]
    \/ Close /\ op' = [o |-> "close"]
Spec == Init /\ [][Next]_vars
Emit == PrintT("TR " \o ToJson([file |-> file, cur |-> cur, mode |-> mode, op |-> op']))
\* no write disturbs bytes outside the range it names, and none shortens the file
FrameOK == [][Len(file') >= Len(file) /\ (mode # "rw" => file' = file)]_vars
=============================================================================
