--------------------------- MODULE MultipartImpl ---------------------------
(* The parser of multipart bodies: a body arrives in chunks of any size and may end       *)
(* anywhere; the parser takes it unit by unit from a small buffer that is filled when it   *)
(* is empty, reads each part's length from its header and takes as many units as that,     *)
(* whatever they look like.  TLC checks for every small body, chunking and place it ends   *)
(* that the parts found are the first ones of the body, all of them when it is whole, and   *)
(* that the parser comes to an end.                                                        *)
EXTENDS Multipart, FiniteSets, TLC, Json
CONSTANTS MaxParts, MaxSize, Cap, MaxChunk, Emit
VARIABLES sizes, lead, trunc, pc, sent, resid, buf, pos, left, out
vars == <<sizes, lead, trunc, pc, sent, resid, buf, pos, left, out>>
\* data that looks like a boundary
Look == <<"DA", "CR", "LF", "DA">>
Data(k) == SubSeq(Look, 1, k)
Part(k) == <<"B1", "B2", "CR", "LF", "H", "CR", "LF", "CR", "LF">> \o Data(k)
RECURSIVE Body(_, _)
Body(ss, first) ==
    IF ss = << >> THEN <<"CR", "LF", "B1", "B2", "DA", "DA">>
    ELSE (IF first /\ ~lead THEN << >> ELSE <<"CR", "LF">>) \o Part(Head(ss)) \o Body(Tail(ss), FALSE)
Whole == Body(sizes, TRUE)
N == Len(Whole)
Init ==
    /\ sizes \in UNION {[1..n -> 1..MaxSize] : n \in 1..MaxParts}
    /\ lead \in BOOLEAN
    /\ trunc \in 0..Len(Body(sizes, TRUE))
    /\ pc = "lead" /\ sent = 0 /\ resid = 0 /\ buf = 0 /\ pos = 0 /\ left = 0 /\ out = << >>
Active == pc \notin {"done", "error"}
\* the buffer is empty: the reader has units left over, or the next chunk comes, or the body ends
Fill ==
    /\ Active /\ buf = 0
    /\ \/ resid > 0 /\ buf' = Min(resid, Cap) /\ resid' = resid - buf' /\ UNCHANGED <<sent, pc>>
       \/ resid = 0 /\ sent < trunc /\ \E k \in 1..MaxChunk :
            /\ resid' = Min(k, trunc - sent) /\ sent' = sent + resid' /\ UNCHANGED <<buf, pc>>
       \/ resid = 0 /\ sent = trunc /\ pc' = "done" /\ UNCHANGED <<buf, resid, sent>>
    /\ UNCHANGED <<sizes, lead, trunc, pos, left, out>>
U == Whole[pos + 1]
Take(p) == pos' = pos + 1 /\ buf' = buf - 1 /\ pc' = p
Fail == pc' = "error" /\ UNCHANGED <<pos, buf, left, out>>
Expect(u, p) == IF U = u THEN Take(p) /\ UNCHANGED <<left, out>> ELSE Fail
Parse ==
    /\ Active /\ buf > 0
    /\ CASE pc = "lead" -> IF U \in {"CR", "LF"} THEN Take("lead") /\ UNCHANGED <<left, out>>
                           ELSE pc' = "b1" /\ UNCHANGED <<pos, buf, left, out>>
         [] pc = "b1" -> Expect("B1", "b2")
         [] pc = "b2" -> Expect("B2", "t1")
         [] pc \in {"t1", "t2"} ->
              IF U = "DA" THEN Take("done") /\ UNCHANGED <<left, out>>
              ELSE IF pc = "t1" THEN Expect("CR", "t2") ELSE Expect("LF", "head")
         [] pc = "head" ->
              IF U = "CR" THEN Take("h0") /\ UNCHANGED <<left, out>>
              ELSE /\ Take("h1") /\ left' = sizes[Len(out) + 1] /\ UNCHANGED out
         [] pc = "h1" -> Expect("CR", "h2")
         [] pc = "h2" -> Expect("LF", "head")
         [] pc = "h0" -> IF U = "LF" THEN Take("data") /\ out' = Append(out, << >>) /\ UNCHANGED left ELSE Fail
         [] pc = "data" ->
              /\ out' = [out EXCEPT ![Len(out)] = Append(@, U)]
              /\ left' = left - 1
              /\ Take(IF left = 1 THEN "c1" ELSE "data")
         [] pc = "c1" -> Expect("CR", "c2")
         [] pc = "c2" -> Expect("LF", "b1")
    /\ UNCHANGED <<sizes, lead, trunc, resid, sent>>
Next == Fill \/ Parse \/ (~Active /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Fill \/ Parse)
Want == [k \in 1..Len(sizes) |-> Data(sizes[k])]
\* a part in the making is not handed out
Given == IF pc = "data" \/ (left > 0 /\ out # << >> /\ Len(out[Len(out)]) < sizes[Len(out)]) THEN SubSeq(out, 1, Len(out) - 1) ELSE out
Right == /\ IsPrefix(Given, Want)
         /\ (pc = "done" /\ trunc = N) => Given = Want
         /\ pc # "error"
Ends == <>(~Active)
Cuts == {{}, 1..(N - 1)} \cup {{k} : k \in 1..(N - 1)}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})
Printed == (Emit /\ sent = 0 /\ pc = "lead") =>
    \A c \in Cuts : PrintT("TR " \o ToJson([sizes |-> sizes, lead |-> lead, trunc |-> trunc, n |-> N, cuts |-> Ordered(c)]))
=============================================================================
