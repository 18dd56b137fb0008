------------------------------ MODULE P2PSweep ------------------------------
(* The protocol by which clients execute a schedule sweep after sweep, on a  *)
(* machine with store buffers: every thread clears its share of the          *)
(* finished flags, all meet, then each thread takes its tasks in order,      *)
(* waits for the flags of the listed predecessors, reads their results,      *)
(* stores its own and raises its flag; all meet before flags are cleared     *)
(* again.  Every cut of N tasks into T threads and every set of              *)
(* cross-thread waits is an initial state.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, T, Sweeps,
          Ordered,       \* stores reach memory in program order (x86)
          Join, Meet     \* barrier between clearing and running / between running and clearing

Tasks == 0..N - 1
Ths == 0..T - 1
VARIABLES cut, deps, mem, buf, pc, at, dep, sweep, met
vars == <<cut, deps, mem, buf, pc, at, dep, sweep, met>>

Owner(c, k) == CHOOSE t \in Ths : c[t] <= k /\ k < c[t + 1]
Loc == {<<"flag", k>> : k \in Tasks} \cup {<<"val", k>> : k \in Tasks}
Share(t) == {k \in Tasks : k \div ((N + T - 1) \div T) = t}   \* flags are cleared by equal shares, not by owner
Init ==
  /\ cut \in {c \in [0..T -> 0..N] : c[0] = 0 /\ c[T] = N /\ \A t \in Ths : c[t] <= c[t + 1]}
  /\ deps \in SUBSET {p \in Tasks \X Tasks : p[1] # p[2]}
  /\ \A p \in deps : Owner(cut, p[1]) # Owner(cut, p[2])
  \* some order of the tasks respects both the threads' own orders and the waits
  /\ \E f \in [Tasks -> Tasks] : /\ \A a, b \in Tasks : a # b => f[a] # f[b]
                                 /\ \A p \in deps : f[p[1]] < f[p[2]]
                                 /\ \A a, b \in Tasks : a < b /\ Owner(cut, a) = Owner(cut, b) => f[a] < f[b]
  /\ mem = [x \in Loc |-> 0] /\ buf = [t \in Ths |-> <<>>]
  /\ pc = [t \in Ths |-> "clear"] /\ at = [t \in Ths |-> 0] /\ dep = [t \in Ths |-> {}]
  /\ sweep = [t \in Ths |-> 1] /\ met = [t \in Ths |-> 0]

Val(t, x) == LET own == {k \in 1..Len(buf[t]) : buf[t][k][1] = x} IN
  IF own = {} THEN mem[x] ELSE buf[t][CHOOSE k \in own : \A j \in own : j <= k][2]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Put(t, x, v) == buf' = [buf EXCEPT ![t] = Append(@, <<x, v>>)] /\ UNCHANGED mem
Drain(t) == \E k \in 1..Len(buf[t]) :
  /\ IF Ordered THEN k = 1 ELSE \A j \in 1..k - 1 : buf[t][j][1] # buf[t][k][1]
  /\ mem' = [mem EXCEPT ![buf[t][k][1]] = buf[t][k][2]] /\ buf' = [buf EXCEPT ![t] = Without(@, k)]
  /\ UNCHANGED <<cut, deps, pc, at, dep, sweep, met>>
Same == UNCHANGED <<cut, deps>>
Preds(k) == {p[1] : p \in {q \in deps : q[2] = k}}

\* a barrier: nobody passes before all have come, with their stores in memory
Pass(t, here, nxt, on) == pc[t] = here /\ Same /\ UNCHANGED <<mem, buf, at, dep, sweep>>
  /\ IF ~on THEN pc' = [pc EXCEPT ![t] = nxt] /\ UNCHANGED met
     ELSE \/ pc[t] = here /\ met[t] % 2 = 0 /\ buf[t] = <<>> /\ met' = [met EXCEPT ![t] = @ + 1] /\ UNCHANGED pc
          \/ met[t] % 2 = 1 /\ (\A u \in Ths : met[u] >= met[t]) /\ met' = [met EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = nxt]
Clear(t) == pc[t] = "clear" /\ Same /\ UNCHANGED <<dep, sweep, met>>
  /\ LET todo == {k \in Share(t) : k >= at[t]} IN
     IF todo = {} THEN pc' = [pc EXCEPT ![t] = "join"] /\ at' = [at EXCEPT ![t] = cut[t]] /\ UNCHANGED <<mem, buf>>
     ELSE LET k == CHOOSE x \in todo : \A y \in todo : x <= y IN Put(t, <<"flag", k>>, 0) /\ at' = [at EXCEPT ![t] = k + 1] /\ UNCHANGED pc
Take(t) == pc[t] = "take" /\ Same /\ UNCHANGED <<mem, buf, at, sweep, met>>
  /\ IF at[t] = cut[t + 1] THEN pc' = [pc EXCEPT ![t] = "meet"] /\ UNCHANGED dep
     ELSE pc' = [pc EXCEPT ![t] = "wait"] /\ dep' = [dep EXCEPT ![t] = Preds(at[t])]
Wait(t) == pc[t] = "wait" /\ Same /\ UNCHANGED <<mem, buf, at, sweep, met>>
  /\ IF dep[t] = {} THEN pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED dep
     ELSE LET k == CHOOSE x \in dep[t] : \A y \in dep[t] : x <= y IN Val(t, <<"flag", k>>) = 1 /\ dep' = [dep EXCEPT ![t] = @ \ {k}] /\ UNCHANGED pc
Read(t) == pc[t] = "read" /\ Put(t, <<"val", at[t]>>, sweep[t]) /\ pc' = [pc EXCEPT ![t] = "notify"] /\ Same /\ UNCHANGED <<at, dep, sweep, met>>
Notify(t) == pc[t] = "notify" /\ Put(t, <<"flag", at[t]>>, 1) /\ pc' = [pc EXCEPT ![t] = "take"] /\ at' = [at EXCEPT ![t] = @ + 1] /\ Same /\ UNCHANGED <<dep, sweep, met>>
Again(t) == pc[t] = "again" /\ Same /\ UNCHANGED <<mem, buf, dep, met>>
  /\ IF sweep[t] = Sweeps THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<at, sweep>>
     ELSE pc' = [pc EXCEPT ![t] = "clear"] /\ sweep' = [sweep EXCEPT ![t] = @ + 1] /\ at' = [at EXCEPT ![t] = 0]
Step(t) == Clear(t) \/ Pass(t, "join", "take", Join) \/ Take(t) \/ Wait(t) \/ Read(t) \/ Notify(t) \/ Pass(t, "meet", "again", Meet) \/ Again(t) \/ Drain(t)
Finished == (\A t \in Ths : pc[t] = "done") /\ UNCHANGED vars
Next == Finished \/ \E t \in Ths : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Ths : WF_vars(Step(t))

\* P06: a task reads the results its predecessors stored in this very sweep
Fresh == \A t \in Ths : pc[t] = "read" => \A k \in Preds(at[t]) : Val(t, <<"val", k>>) = sweep[t]
\* P07: every sweep ends
Ends == <>(\A t \in Ths : pc[t] = "done")
=============================================================================
