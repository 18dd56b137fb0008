------------------------------ MODULE LevelSched ------------------------------
(* Level schedules of a structurally symmetric matrix.                       *)
(* g.m rows; g.rows[i+1] = columns of row i (0-based, local part only).      *)
(* A schedule s: ntasks, lev (level boundaries), o2t / t2o (row orders),     *)
(* tb (rows of a task: positions tb[t+1]..tb[t+2]-1), thb (tasks of a        *)
(* thread), pf / pb (listed predecessors of a task forward / backward), fin  *)
(* (initial flags), fu / fo (fused predecessors and their storage offsets).  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Lower(g, i) == {c \in Range(g.rows[i + 1]) : c < i}
Upper(g, i) == {c \in Range(g.rows[i + 1]) : c > i}

MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x

(* Longest dependency chain below each row. *)
Levels(g) ==
  FoldLeft(LAMBDA acc, i : Append(acc, MaxOf({acc[j + 1] : j \in Lower(g, i)}, -1) + 1),
           <<>>, [k \in 1..g.m |-> k - 1])

-----------------------------------------------------------------------------
(* P04: the orders and boundaries are well formed.                           *)
IsPermOf(p, m) == Len(p) = m /\ {p[k] : k \in 1..Len(p)} = 0..m - 1
Nondecreasing(s) == \A k \in 1..Len(s) - 1 : s[k] <= s[k + 1]
Boundaries(s, hi) == Len(s) >= 1 /\ s[1] = 0 /\ s[Len(s)] = hi /\ Nondecreasing(s)

Orders(g, s) ==
  /\ IsPermOf(s.o2t, g.m) /\ IsPermOf(s.t2o, g.m)
  /\ \A i \in 1..g.m : s.t2o[s.o2t[i] + 1] = i - 1
Cuts(g, s, T) ==
  /\ s.ntasks >= 0
  /\ Len(s.tb) = s.ntasks + 1 /\ Boundaries(s.tb, g.m)
  /\ Len(s.thb) = T + 1 /\ Boundaries(s.thb, s.ntasks)

(* position -> task *)
TaskAtPos(s) ==
  FoldLeft(LAMBDA acc, t : acc \o [k \in 1..(s.tb[t + 2] - s.tb[t + 1]) |-> t], <<>>,
           [k \in 1..s.ntasks |-> k - 1])
ThreadOf(s, T) ==
  FoldLeft(LAMBDA acc, h : acc \o [k \in 1..(s.thb[h + 2] - s.thb[h + 1]) |-> h], <<>>,
           [k \in 1..T |-> k - 1])
TaskRows(s, t) == {s.t2o[p + 1] : p \in s.tb[t + 1]..s.tb[t + 2] - 1}

(* every task holds rows of one level, and a thread's tasks come in level order *)
LevelOrder(g, s, lv, T) ==
  /\ \A t \in 0..s.ntasks - 1 : Cardinality({lv[i + 1] : i \in TaskRows(s, t)}) <= 1
  /\ \A h \in 0..T - 1 :
       \A p \in s.tb[s.thb[h + 1] + 1]..s.tb[s.thb[h + 2] + 1] - 2 :
          lv[s.t2o[p + 1] + 1] <= lv[s.t2o[p + 2] + 1]

P04(g, s, T, opt) == Orders(g, s) /\ Cuts(g, s, T) /\ LevelOrder(g, s, Levels(g), T)

-----------------------------------------------------------------------------
(* P05: levels are the longest-path depths; barrier mode has one task per    *)
(* level and thread.                                                         *)
CountAt(lv, l) == Cardinality({i \in 1..Len(lv) : lv[i] = l})
P05(g, s, T, opt) ==
  LET lv == Levels(g)
      L == MaxOf({lv[i] : i \in 1..g.m}, -1) + 1
      tap == TaskAtPos(s)
  IN
  /\ Orders(g, s) /\ Cuts(g, s, T)
  /\ Len(s.lev) = L + 1 /\ Boundaries(s.lev, g.m)
  /\ \A l \in 0..L - 1 : s.lev[l + 2] - s.lev[l + 1] = CountAt(lv, l)
  /\ LevelOrder(g, s, lv, T)
  /\ (opt.ub =>
        /\ \A h \in 0..T - 1 : s.thb[h + 2] - s.thb[h + 1] = L
        /\ \A h \in 0..T - 1 : \A l \in 0..L - 1 :
             \A i \in TaskRows(s, s.thb[h + 1] + l) : lv[i + 1] = l)

-----------------------------------------------------------------------------
(* Point-to-point execution.  A task starts once its thread has finished the *)
(* previous task (in sweep direction) and every listed predecessor is        *)
(* finished.  Executions only ever finish more tasks (waiting conditions are *)
(* monotone), so: a task may start in some execution iff it is reached by    *)
(* the greedy execution, and what is certainly finished when it starts is    *)
(* the transitive closure of its start conditions.                           *)
ListsOk(s, lst) ==
  /\ Len(lst) = s.ntasks
  /\ \A t \in 1..s.ntasks : \A k \in 1..Len(lst[t]) : lst[t][k] \in 0..s.ntasks - 1

Preds(s, thr, lst, back, t) ==
  Range(lst[t + 1]) \cup
  LET q == IF back THEN t + 1 ELSE t - 1
  IN IF q \in 0..s.ntasks - 1 /\ thr[q + 1] = thr[t + 1] THEN {q} ELSE {}

RECURSIVE Greedy(_, _, _)
Greedy(acc, todo, pre) ==
  LET new == {t \in todo : pre[t] \subseteq DOMAIN acc}
  IN IF new = {} THEN acc
     ELSE Greedy(acc @@ [t \in new |-> pre[t] \cup UNION {acc[p] : p \in pre[t]}], todo \ new, pre)

(* task |-> tasks certainly finished before it starts; domain: tasks that run *)
Closure(s, thr, lst, back) ==
  Greedy([t \in {} |-> {}], 0..s.ntasks - 1,
         [t \in 0..s.ntasks - 1 |-> Preds(s, thr, lst, back, t)])

SafeDir(g, s, tap, before, back) ==
  \A i \in 0..g.m - 1 :
    LET u == tap[s.o2t[i + 1] + 1] IN
    u \in DOMAIN before =>
    \A j \in (IF back THEN Upper(g, i) ELSE Lower(g, i)) :
      LET v == tap[s.o2t[j + 1] + 1] IN
      \/ v \in before[u]
      \/ v = u /\ (IF back THEN s.o2t[j + 1] > s.o2t[i + 1] ELSE s.o2t[j + 1] < s.o2t[i + 1])

WellCut(g, s, T) == Orders(g, s) /\ Cuts(g, s, T)

P06(g, s, T, opt) ==
  /\ WellCut(g, s, T) /\ ListsOk(s, s.pf) /\ ListsOk(s, s.pb)
  /\ LET tap == TaskAtPos(s)  thr == ThreadOf(s, T) IN
     /\ SafeDir(g, s, tap, Closure(s, thr, s.pf, FALSE), FALSE)
     /\ SafeDir(g, s, tap, Closure(s, thr, s.pb, TRUE), TRUE)

P07(g, s, T, opt) ==
  /\ WellCut(g, s, T) /\ ListsOk(s, s.pf) /\ ListsOk(s, s.pb)
  /\ LET thr == ThreadOf(s, T) IN
     /\ DOMAIN Closure(s, thr, s.pf, FALSE) = 0..s.ntasks - 1
     /\ DOMAIN Closure(s, thr, s.pb, TRUE) = 0..s.ntasks - 1

(* nobody is marked finished before anything ran *)
FlagsClear(s) == Len(s.fin) = s.ntasks /\ \A t \in 1..s.ntasks : s.fin[t] = 0

-----------------------------------------------------------------------------
(* P08: the SpMV part of task u, run by its thread after its own             *)
(* Gauss-Seidel tasks, once the listed tasks of the backward sweep are       *)
(* finished, reads only finished rows.                                       *)
P08(g, s, T, opt) ==
  opt.fu =>
  /\ s.hasF
  /\ WellCut(g, s, T) /\ ListsOk(s, s.pb) /\ ListsOk(s, s.fu)
  (* the lists do not share storage *)
  /\ \A t \in 1..s.ntasks : s.fo[t] >= 0
  /\ \A t \in 1..s.ntasks - 1 : s.fo[t] + Len(s.fu[t]) <= s.fo[t + 1]
  /\ LET tap == TaskAtPos(s)  thr == ThreadOf(s, T)
         before == Closure(s, thr, s.pb, TRUE)
         done == [u \in 0..s.ntasks - 1 |->
                    LET p == Range(s.fu[u + 1])
                    IN  p \cup UNION {before[w] : w \in p}]
     IN /\ DOMAIN before = 0..s.ntasks - 1
        /\ \A i \in 0..g.m - 1 :
             LET u == tap[s.o2t[i + 1] + 1] IN
             \A j \in Range(g.rows[i + 1]) : tap[s.o2t[j + 1] + 1] \in done[u]

-----------------------------------------------------------------------------
(* One recorded execution: flat list of <<kind, sweep, task>> (1 start, 2    *)
(* finish); a sweep ends before the next one begins.                         *)
EvK(ev, k) == ev[3 * k - 2]
EvS(ev, k) == ev[3 * k - 1]
EvT(ev, k) == ev[3 * k]
DepTasks(g, s, tap, back) ==
  [u \in 0..s.ntasks - 1 |->
     {tap[s.o2t[j + 1] + 1] : j \in UNION {IF back THEN Upper(g, i) ELSE Lower(g, i) : i \in TaskRows(s, u)}} \ {u}]

ExecSafe(g, s, T, sweeps, ev) ==
  /\ WellCut(g, s, T)
  /\ LET tap == TaskAtPos(s)
         dep == [b \in {0, 1} |-> DepTasks(g, s, tap, b = 1)]
         n == Len(ev) \div 3
         r == FoldLeft(LAMBDA acc, k :
                IF ~acc.ok THEN acc
                ELSE LET same == EvS(ev, k) = acc.sw
                         fin == IF same THEN acc.fin ELSE {}
                         t == EvT(ev, k)
                     IN IF t \notin 0..s.ntasks - 1 THEN [acc EXCEPT !.ok = FALSE]
                        ELSE IF EvK(ev, k) = 1
                        THEN [ok |-> dep[sweeps[EvS(ev, k) + 1]][t] \subseteq fin, sw |-> EvS(ev, k), fin |-> fin]
                        ELSE [ok |-> TRUE, sw |-> EvS(ev, k), fin |-> fin \cup {t}],
                [ok |-> TRUE, sw |-> -1, fin |-> {}], [k \in 1..n |-> k])
     IN r.ok

ExecComplete(s, sweeps, ev) ==
  LET n == Len(ev) \div 3 IN
  /\ n = 2 * s.ntasks * Len(sweeps)
  /\ \A w \in 0..Len(sweeps) - 1 :
       {EvT(ev, k) : k \in {k \in 1..n : EvK(ev, k) = 2 /\ EvS(ev, k) = w}} = 0..s.ntasks - 1
=============================================================================
