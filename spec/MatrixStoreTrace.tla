-------------------------- MODULE MatrixStoreTrace --------------------------
(* Trace validation: every recorded history of the real library must be a    *)
(* behaviour of MatrixStore.  A rejected step is remembered in `bad` and the *)
(* rest of that history is skipped, so that one run reports every rejection. *)
EXTENDS MatrixStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, k, bad
vars == <<store, l, k, bad>>

Init == l = 1 /\ k = 1 /\ store = <<>> /\ bad = 0

Empty == [x \in {} |-> 0]
Ev == Trace[l]
Fail(why) == /\ PrintT(<<"REJ", l, k, why>>) /\ bad' = bad + 1 /\ l' = l + 1 /\ k' = 1 /\ store' = Empty

Step ==
  /\ l <= Len(Trace)
  /\ IF Ev.st # "ok" THEN Fail(Ev.st)
     ELSE IF k > Len(Ev.out.steps) THEN l' = l + 1 /\ k' = 1 /\ store' = Empty /\ bad' = bad
     ELSE LET e == Ev.out.steps[k]
              s == IF k = 1 THEN Empty ELSE store
          IN IF StepOk(s, e, e.obs)
             THEN store' = e.obs /\ k' = k + 1 /\ l' = l /\ bad' = bad
             ELSE Fail(e.op)

Next == Step
Spec == Init /\ [][Next]_vars

(* Every line has been consumed when the search ends. *)
Consumed == TLCSet(1, l)
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
