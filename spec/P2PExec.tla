------------------------------- MODULE P2PExec -------------------------------
(* The execution a schedule prescribes, as a state machine explored in full  *)
(* for schedules recorded from the real code: each thread runs its tasks in  *)
(* order (reversed for the backward sweep), waits for the listed             *)
(* predecessors' flags one after the other, runs the task and raises its     *)
(* flag.  Every line of the trace gives two initial states.                  *)
EXTENDS LevelSched, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, back,   \* which schedule, which direction
          pos,       \* per thread: tasks completed
          run,       \* per thread: inside its current task?
          bad
vars == <<l, back, pos, run, bad>>
g == [m |-> Trace[l].in.m, rows |-> Trace[l].in.rows]
s == Trace[l].out
T == Trace[l].T
Fine(k) == Trace[k].st = "ok" /\ WellCut([m |-> Trace[k].in.m, rows |-> Trace[k].in.rows], Trace[k].out, Trace[k].T)
           /\ ListsOk(Trace[k].out, Trace[k].out.pf) /\ ListsOk(Trace[k].out, Trace[k].out.pb)
Init ==
  /\ l \in {k \in 1..Len(Trace) : Fine(k) \/ PrintT(<<"REJ", k, 1, "malformed">>) = FALSE}
  /\ back \in BOOLEAN /\ bad = FALSE
  /\ pos = [h \in 0..Trace[l].T - 1 |-> 0] /\ run = [h \in 0..Trace[l].T - 1 |-> FALSE]
Cnt(h) == s.thb[h + 2] - s.thb[h + 1]
TaskNo(h, k) == IF back THEN s.thb[h + 2] - 1 - k ELSE s.thb[h + 1] + k
Finished == UNION {{TaskNo(h, k) : k \in 0..pos[h] - 1} : h \in 0..T - 1}
Lst(t) == IF back THEN s.pb[t + 1] ELSE s.pf[t + 1]
CanStart(h) == ~run[h] /\ pos[h] < Cnt(h) /\ Range(Lst(TaskNo(h, pos[h]))) \subseteq Finished
FinishedRow(j) == \E t \in Finished : j \in TaskRows(s, t)
SafeStart(t) == \A i \in TaskRows(s, t) : \A j \in (IF back THEN Upper(g, i) ELSE Lower(g, i)) : j \in TaskRows(s, t) \/ FinishedRow(j)
Start(h) ==
  /\ CanStart(h) /\ run' = [run EXCEPT ![h] = TRUE] /\ UNCHANGED <<l, back, pos>>
  /\ IF Prop = "P06" /\ ~SafeStart(TaskNo(h, pos[h])) THEN PrintT(<<"REJ", l, 1, "started too early">>) /\ bad' = TRUE ELSE bad' = bad
Finish(h) == run[h] /\ run' = [run EXCEPT ![h] = FALSE] /\ pos' = [pos EXCEPT ![h] = @ + 1] /\ UNCHANGED <<l, back, bad>>
AllDone == \A h \in 0..T - 1 : pos[h] = Cnt(h)
Stuck == ~AllDone /\ \A h \in 0..T - 1 : ~run[h] /\ ~CanStart(h)
Deadlock == Stuck /\ ~bad /\ Prop = "P07" /\ PrintT(<<"REJ", l, 1, "deadlock">>) /\ bad' = TRUE /\ UNCHANGED <<l, back, pos, run>>
Next == ~bad /\ (Deadlock \/ \E h \in 0..T - 1 : Start(h) \/ Finish(h))
Spec == Init /\ [][Next]_vars
Consumed == TLCSet(1, Len(Trace))
TraceAccepted == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
