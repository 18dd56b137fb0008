----------------------------- MODULE LedgerTrace -----------------------------
(* Every recorded session of the real library starts and ends with the ledger *)
(* quiescent: the same memory held and the same files open as before, nothing *)
(* given back twice.                                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOwn, MaxObj, MaxHandles, ForgetOnRefusal, ForgetOnReturn
VARIABLES st, own, obj, handles, held, l, files
vars == <<st, own, obj, handles, held, l, files>>
L == INSTANCE Ledger
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Init == L!Init /\ l = 1 /\ files = 0
Reject(why) == PrintT(<<"REJ", l, 1, why>>)
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<st, own, obj, handles>>
  /\ IF Ev.st = "ok"
     THEN /\ L!Session(Ev.lk) /\ files' = files + Ev.fd
          /\ IF held' = held THEN TRUE ELSE Reject("memory kept")
          /\ IF files' = files THEN TRUE ELSE Reject("file kept open")
     ELSE held' = held /\ files' = files /\ (IF Ev.st = "badfree" THEN Reject("given back twice") ELSE TRUE)
Next == Step
Spec == Init /\ [][Next]_vars
Consumed == TLCSet(1, l)
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
