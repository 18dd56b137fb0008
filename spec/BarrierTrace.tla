---------------------------- MODULE BarrierTrace ----------------------------
(* Every recorded execution of the real barriers must be a behaviour of      *)
(* Barrier.  An event is <<kind, thread, value>>:                            *)
(*   0 team n   1 enter   2 leave   3 leave with a reduction result          *)
(*   4 get default barrier (value = object number)   5 delete it   6 end     *)
EXTENDS Barrier, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k
vars == <<bvars, l, k>>

Init == BInit /\ l = 1 /\ k = 1
Ev == Trace[l]
Reset == team' = 1 /\ ent' = [t \in {0} |-> 0] /\ lev' = [t \in {0} |-> 0] /\ val' = <<>> /\ inst' = 0
NextLine == l' = l + 1 /\ k' = 1 /\ Reset
Fail(why) == PrintT(<<"REJ", l, k, why>>) /\ NextLine

E == Ev.out.ev[k]
Is(n) == E[1] = n
Act ==
  CASE Is(0) -> Quiescent /\ Team(E[3])
    [] Is(1) -> Enter(E[2], E[3])
    [] Is(2) -> Leave(E[2])
    [] Is(3) -> LeaveWith(E[2], Ev.out.fold, E[3])
    [] Is(4) -> Get(E[2], E[3])
    [] Is(5) -> DeleteDefault
    [] Is(6) -> Quiescent /\ UNCHANGED bvars
    [] Is(7) -> E[3] = 1 /\ UNCHANGED bvars      \* bookkeeping of the load-imbalance barrier is right
Why ==
  CASE Is(0) -> "team" [] Is(1) -> "enter" [] Is(2) -> "leave" [] Is(3) -> IF MayLeave(E[2]) THEN "reduction" ELSE "leave"
    [] Is(4) -> "get" [] Is(5) -> "delete" [] Is(7) -> "bookkeeping" [] OTHER -> "end"
Step ==
  /\ l <= Len(Trace)
  /\ IF Ev.st # "ok" THEN Fail(Ev.st)
     ELSE IF k > Len(Ev.out.ev) THEN NextLine
     ELSE IF ENABLED Act THEN Act /\ k' = k + 1 /\ l' = l ELSE Fail(Why)
Next == Step
Spec == Init /\ [][Next]_vars
Consumed == TLCSet(1, l)
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
