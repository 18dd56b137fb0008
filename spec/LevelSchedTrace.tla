--------------------------- MODULE LevelSchedTrace ---------------------------
(* Every schedule built by the real code must satisfy the clause of          *)
(* LevelSched named by PROP, and every recorded execution must be safe and   *)
(* complete.                                                                 *)
EXTENDS LevelSched, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l
vars == <<l>>
Init == l = 1
Ev == Trace[l]
g == [m |-> Ev.in.m, rows |-> Ev.in.rows]
o == Ev.out
Built ==
  CASE Prop = "P04" -> P04(g, o, Ev.T, Ev.in.opt)
    [] Prop = "P05" -> P05(g, o, Ev.T, Ev.in.opt)
    [] Prop = "P06" -> P06(g, o, Ev.T, Ev.in.opt) /\ FlagsClear(o)
    [] Prop = "P07" -> P07(g, o, Ev.T, Ev.in.opt)
    [] Prop = "P08" -> P08(g, o, Ev.T, Ev.in.opt)
Ran ==
  CASE Prop = "P06" -> ExecSafe(g, o, Ev.T, Ev.in.sweeps, o.ev)
    [] Prop = "P07" -> ExecComplete(o, Ev.in.sweeps, o.ev)
    [] OTHER -> TRUE
(* tasks with very many predecessors: only the start of a task and the finish of one it needs  *)
(* are recorded, for sampled pairs, first of the forward and then of the backward sweep         *)
HubRan ==
  CASE Prop = "P06" -> \A k \in 1..Len(o.start) : o.fin[k] = -2 \/ (o.fin[k] >= 0 /\ o.fin[k] < o.start[k])
    [] Prop = "P07" -> Len(o.start) = 2 * Len(Ev.in.row) /\ \A w \in 1..2 : o.done[w] = o.ntasks
    [] OTHER -> TRUE
Ok == IF Ev.op = "hub" THEN HubRan ELSE IF Ev.op = "sched" THEN Built ELSE Ran
Reject(why) == PrintT(<<"REJ", l, 1, why>>)
Step ==
  /\ l <= Len(Trace)
  /\ IF Ev.st # "ok" THEN Reject(Ev.st) ELSE IF Ok THEN TRUE ELSE Reject(Ev.op)
  /\ l' = l + 1
Next == Step
Spec == Init /\ [][Next]_vars
Consumed == TLCSet(1, l)
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
