----------------------------- MODULE ClientImpl -----------------------------
(* How the client serves calls: the first page of the index and the list of fields are   *)
(* promises shared by all calls, everything else is asked for by the call that needs it.  *)
(* A promise that failed is forgotten (Forget), and the list of fields becomes visible     *)
(* once it is complete (Whole).  TLC checks, for every order of answers and failures, that *)
(* a call fails only for a request that failed while it ran, that no call waits for        *)
(* nothing, and that an answer is made of all fields; and it prints the schedules, which   *)
(* are then played to the real client.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, Pages, Loads, MaxSteps, MaxFaults, Forget, Whole, Emit
VARIABLES p1, hd, hpos, list, hseen, pc, pend, exc, seen, hist, faults
vars == <<p1, hd, hpos, list, hseen, pc, pend, exc, seen, hist, faults>>
\* for checking, how many steps were taken is enough
View == <<p1, hd, hpos, list, hseen, pc, pend, exc, seen, Len(hist), faults>>
\* pc of a call: "idle", "meta", "headers", one of its own loads "a" "b" "c", "ok", "err"; a request is of a call or shared
Init ==
    /\ p1 = "no" /\ hd = "no" /\ hpos = 0 /\ list = {} /\ hseen = {} /\ pend = << >> /\ hist = << >> /\ faults = 0
    /\ pc = [c \in Calls |-> "idle"] /\ exc = [c \in Calls |-> FALSE] /\ seen = [c \in Calls |-> {}]
Own == <<"a", "b", "c">>
NextOwn(x) == LET i == CHOOSE j \in 1..3 : Own[j] = x IN IF i >= Loads THEN "ok" ELSE Own[i + 1]
Req(k, c) == [k |-> k, c |-> c]
Asked(k, c) == \E i \in 1..Len(pend) : pend[i] = Req(k, c)
\* ---- steps the client takes by itself
Meta(c) ==
    /\ pc[c] = "meta" /\ p1 # "wait"
    /\ CASE p1 = "no" -> p1' = "wait" /\ pend' = Append(pend, Req("p1", 0)) /\ UNCHANGED pc
         [] p1 = "yes" -> pc' = [pc EXCEPT ![c] = "headers"] /\ UNCHANGED <<p1, pend>>
         [] p1 = "bad" -> pc' = [pc EXCEPT ![c] = "err"] /\ UNCHANGED <<p1, pend>>
    /\ UNCHANGED <<hd, hpos, list, hseen, exc, seen, hist, faults>>
Headers(c) ==
    /\ pc[c] = "headers" /\ hd # "run"
    /\ CASE hd = "no" ->
              \* a list that is there is taken for the whole one
              /\ hd' = "run" /\ hpos' = IF list = {} THEN 1 ELSE Pages + 1
              /\ UNCHANGED <<pc, seen>>
         [] hd = "yes" -> pc' = [pc EXCEPT ![c] = "a"] /\ seen' = [seen EXCEPT ![c] = hseen] /\ UNCHANGED <<hd, hpos>>
         [] hd = "bad" -> pc' = [pc EXCEPT ![c] = "err"] /\ UNCHANGED <<hd, hpos, seen>>
    /\ UNCHANGED <<p1, list, hseen, pend, exc, hist, faults>>
HeaderPage ==
    /\ hd = "run" /\ hpos <= Pages /\ ~Asked("h", 0)
    /\ CASE hpos = 1 /\ p1 = "yes" -> hpos' = 2 /\ list' = (IF Whole THEN list ELSE {1}) /\ UNCHANGED <<p1, pend>>
         [] hpos = 1 /\ p1 = "no" -> p1' = "wait" /\ pend' = Append(pend, Req("p1", 0)) /\ UNCHANGED <<hpos, list>>
         [] hpos > 1 -> pend' = Append(pend, Req("h", 0)) /\ UNCHANGED <<p1, hpos, list>>
         [] OTHER -> FALSE
    /\ UNCHANGED <<hd, hseen, pc, exc, seen, hist, faults>>
HeadersDone ==
    /\ hd = "run" /\ hpos > Pages
    /\ hd' = "yes" /\ list' = (IF Whole THEN 1..Pages ELSE list) /\ hseen' = list'
    /\ UNCHANGED <<p1, hpos, pc, pend, exc, seen, hist, faults>>
OwnLoad(c) ==
    /\ pc[c] \in {"a", "b", "c"} /\ ~Asked("c", c)
    /\ pend' = Append(pend, Req("c", c))
    /\ UNCHANGED <<p1, hd, hpos, list, hseen, pc, exc, seen, hist, faults>>
Internal == HeaderPage \/ HeadersDone \/ \E c \in Calls : Meta(c) \/ Headers(c) \/ OwnLoad(c)
Moving ==
    \/ hd = "run" /\ (hpos > Pages \/ (~Asked("h", 0) /\ (hpos > 1 \/ p1 # "wait")))
    \/ \E c \in Calls : \/ pc[c] = "meta" /\ p1 # "wait"
                        \/ pc[c] = "headers" /\ hd # "run"
                        \/ pc[c] \in {"a", "b", "c"} /\ ~Asked("c", c)
\* ---- steps of the world, once the client waits
Rest == ~Moving /\ Len(hist) < MaxSteps
Without(i) == SubSeq(pend, 1, i - 1) \o SubSeq(pend, i + 1, Len(pend))
Start(c) ==
    /\ Rest /\ pc[c] = "idle" /\ \A d \in Calls : d < c => pc[d] # "idle"
    /\ pc' = [pc EXCEPT ![c] = "meta"] /\ hist' = Append(hist, "s")
    /\ UNCHANGED <<p1, hd, hpos, list, hseen, pend, exc, seen, faults>>
Deliver(i) ==
    /\ Rest /\ i <= Len(pend)
    /\ LET r == pend[i] IN
       /\ p1' = IF r.k = "p1" THEN "yes" ELSE p1
       /\ hpos' = IF r.k = "h" THEN hpos + 1 ELSE hpos
       /\ list' = IF r.k = "h" /\ ~Whole THEN list \cup {hpos} ELSE list
       /\ pc' = [c \in Calls |-> IF r = Req("c", c) THEN NextOwn(pc[c]) ELSE pc[c]]
    /\ pend' = Without(i) /\ hist' = Append(hist, "d" \o ToString(i))
    /\ UNCHANGED <<hd, hseen, exc, seen, faults>>
Fail(i) ==
    /\ Rest /\ i <= Len(pend) /\ faults < MaxFaults
    /\ LET r == pend[i]
           h == hd = "run" /\ (r.k = "h" \/ (r.k = "p1" /\ hpos = 1)) IN
       /\ p1' = IF r.k = "p1" THEN (IF Forget THEN "no" ELSE "bad") ELSE p1
       /\ hd' = IF h THEN (IF Forget THEN "no" ELSE "bad") ELSE hd
       /\ pc' = [c \in Calls |-> IF r = Req("c", c) \/ (r.k = "p1" /\ pc[c] = "meta") \/ (h /\ pc[c] = "headers") THEN "err" ELSE pc[c]]
       /\ exc' = [c \in Calls |-> exc[c] \/ pc[c] \notin {"idle", "ok", "err"}]
    /\ pend' = Without(i) /\ hist' = Append(hist, "f" \o ToString(i)) /\ faults' = faults + 1
    /\ UNCHANGED <<hpos, list, hseen, seen>>
World == \/ \E c \in Calls : Start(c)
         \/ \E i \in 1..3 : Deliver(i) \/ Fail(i)
Next == Internal \/ World \/ (~Moving /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* ---- what must hold
Running(c) == pc[c] \notin {"idle", "ok", "err"}
Excused == \A c \in Calls : pc[c] = "err" => exc[c]
Complete == \A c \in Calls : pc[c] = "ok" => seen[c] = 1..Pages
Awaited == (~Moving /\ \E c \in Calls : Running(c)) => pend # << >>
Printed == (Emit /\ ~Moving /\ Len(hist) = MaxSteps) => PrintT("TR " \o ToJson([s |-> hist]))
=============================================================================
