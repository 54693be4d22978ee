-------------------------------- MODULE Sync --------------------------------
(* The synchronisation of an index with an append-only data file.                      *)
(*                                                                                      *)
(* data: the complete records, each with a number of fields; "bad" records cannot be    *)
(* indexed.  The index persists a watermark wm (records indexed) and ent (their count)  *)
(* in the file record, and the set of keys <<record, field>> in its trees.  A           *)
(* synchronisation validates each record, inserts its keys one by one and writes the    *)
(* file record last; it may be killed between any two writes.                           *)
(* Switches describe the variants of the protocol: Validate (a record is read to its    *)
(* end before any of its keys is inserted), SkipPresent (a key that is there already    *)
(* is passed over), KeepOnError (the file record is written when a record is refused). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxRecs, MaxFields, MaxCrashes, Validate, SkipPresent, KeepOnError
VARIABLES data,     \* sequence of [good, nf, okf]: okf fields can be read before the fault of a bad record
          wm, ent,  \* persisted file record
          keys,     \* persisted keys: sequence-free multiset as function key -> copies
          run,      \* "idle" or "busy"
          pos, fld, \* volatile position of the running synchronisation
          res,      \* result of the last synchronisation
          crashes
vars == <<data, wm, ent, keys, run, pos, fld, res, crashes>>
Recs == [good : {TRUE}, nf : 0..MaxFields, okf : {0}] \cup [good : {FALSE}, nf : {MaxFields}, okf : 0..(MaxFields - 1)]
\* all keys of the first m records
KeysTo(d, m) == UNION {{<<r, f>> : f \in 1..d[r].nf} : r \in 1..m}
FirstBad(d) == IF \E i \in 1..Len(d) : ~d[i].good THEN CHOOSE i \in 1..Len(d) : ~d[i].good /\ \A j \in 1..(i - 1) : d[j].good ELSE Len(d) + 1
Init == data = << >> /\ wm = 0 /\ ent = 0 /\ keys = {} /\ run = "idle" /\ pos = 0 /\ fld = 0 /\ res = "none" /\ crashes = 0
Append1 == /\ run = "idle" /\ Len(data) < MaxRecs
           /\ \E r \in Recs : data' = Append(data, r)
           /\ res' = "none" /\ UNCHANGED <<wm, ent, keys, run, pos, fld, crashes>>
\* a refused record is replaced; what is indexed is never rewritten
Repair == /\ run = "idle" /\ res = "err"
          /\ \E r \in Recs : r.good /\ data' = [data EXCEPT ![FirstBad(data)] = r]
          /\ res' = "none" /\ UNCHANGED <<wm, ent, keys, run, pos, fld, crashes>>
Begin == /\ run = "idle" /\ run' = "busy" /\ pos' = wm + 1 /\ fld' = 1 /\ res' = "none"
         /\ UNCHANGED <<data, wm, ent, keys, crashes>>
Cur == data[pos]
\* how many keys of the current record are inserted before the record is left
Reach == IF Cur.good THEN Cur.nf ELSE IF Validate THEN 0 ELSE Cur.okf
Stop(r, p) == /\ run' = "idle" /\ res' = r /\ pos' = 0 /\ fld' = 0
              /\ IF r = "ok" \/ KeepOnError THEN wm' = p /\ ent' = p ELSE UNCHANGED <<wm, ent>>
Insert == /\ run = "busy" /\ pos <= Len(data) /\ fld <= Reach
          /\ IF <<pos, fld>> \in keys
             THEN IF SkipPresent THEN fld' = fld + 1 /\ UNCHANGED <<wm, ent, keys, run, pos, res>>
                  ELSE Stop("err", pos - 1) /\ UNCHANGED keys
             ELSE keys' = keys \cup {<<pos, fld>>} /\ fld' = fld + 1 /\ UNCHANGED <<wm, ent, run, pos, res>>
          /\ UNCHANGED <<data, crashes>>
NextRec == /\ run = "busy" /\ pos <= Len(data) /\ fld > Reach /\ Cur.good
           /\ pos' = pos + 1 /\ fld' = 1 /\ UNCHANGED <<data, wm, ent, keys, run, res, crashes>>
Refuse == /\ run = "busy" /\ pos <= Len(data) /\ fld > Reach /\ ~Cur.good
          /\ Stop("err", pos - 1) /\ UNCHANGED <<data, keys, crashes>>
Commit == /\ run = "busy" /\ pos > Len(data)
          /\ Stop("ok", Len(data)) /\ UNCHANGED <<data, keys, crashes>>
Crash == /\ run = "busy" /\ crashes < MaxCrashes /\ crashes' = crashes + 1
         /\ run' = "idle" /\ res' = "crash" /\ pos' = 0 /\ fld' = 0 /\ UNCHANGED <<data, wm, ent, keys>>
Next == Append1 \/ Repair \/ Begin \/ Insert \/ NextRec \/ Refuse \/ Commit \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Insert) /\ WF_vars(NextRec) /\ WF_vars(Refuse) /\ WF_vars(Commit)
-----------------------------------------------------------------------------
\* C09/C10: after a synchronisation that succeeded the index holds exactly the keys of all records
CompleteAfterOk == res = "ok" => keys = KeysTo(data, Len(data)) /\ wm = Len(data) /\ ent = wm
\* C11: a refusal happens only for a bad record, leaves exactly the records before it
RefusedAtBad == res = "err" => FirstBad(data) <= Len(data) /\ wm = FirstBad(data) - 1 /\ keys = KeysTo(data, wm) /\ ent = wm
\* C12: nothing that was indexed is ever lost, nothing foreign is ever visible, the watermark covers only indexed records
Covered == KeysTo(data, wm) \subseteq keys
Sound == keys \subseteq KeysTo(data, Len(data)) /\ \A k \in keys : data[k[1]].good
Monotone == [][wm' >= wm /\ keys \subseteq keys']_vars
\* every synchronisation that is not killed ends
Ends == (run = "busy") ~> (run = "idle")
=============================================================================
