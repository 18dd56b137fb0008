------------------------------ MODULE Barrier ------------------------------
(* What a barrier is to its users, independent of how it is built.           *)
(*   ent[t]  number of waits thread t has begun                              *)
(*   lev[t]  number of waits of t that have returned                         *)
(*   val     the values passed to a reducing wait: val[k][t] for episode k   *)
(*   inst    the shared default barrier: 0 when none exists, else its number *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES team, ent, lev, val, inst
bvars == <<team, ent, lev, val, inst>>

Threads == 0..team - 1

BInit == team = 1 /\ ent = [t \in {0} |-> 0] /\ lev = [t \in {0} |-> 0] /\ val = <<>> /\ inst = 0

(* A fresh team (a new parallel region or a new barrier object). *)
Team(n) ==
  /\ n >= 1 /\ team' = n
  /\ ent' = [t \in 0..n - 1 |-> 0] /\ lev' = [t \in 0..n - 1 |-> 0]
  /\ val' = <<>> /\ UNCHANGED inst

Episode(v, k, t, x) ==
  IF k > Len(v) THEN Append(v, (t :> x)) ELSE [v EXCEPT ![k] = (t :> x) @@ v[k]]

Enter(t, x) ==
  /\ t \in Threads
  /\ ent[t] = lev[t]
  /\ ent' = [ent EXCEPT ![t] = @ + 1]
  /\ val' = Episode(val, ent[t] + 1, t, x)
  /\ UNCHANGED <<team, lev, inst>>

(* P01: the k-th wait of t returns only after everyone has begun its k-th.   *)
MayLeave(t) == t \in Threads /\ lev[t] < ent[t] /\ \A u \in Threads : ent[u] >= ent[t]
Leave(t) ==
  /\ MayLeave(t)
  /\ lev' = [lev EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<team, ent, val, inst>>

(* P03: a reducing wait returns the fold of exactly that episode's values.   *)
RECURSIVE FoldVals(_, _, _)
FoldVals(f(_, _), v, S) ==
  LET t == CHOOSE t \in S : TRUE
  IN IF Cardinality(S) = 1 THEN v[t] ELSE f(v[t], FoldVals(f, v, S \ {t}))
Plus(a, b) == a + b
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
FoldOf(name, v) ==
  CASE name = "sum" -> FoldVals(Plus, v, DOMAIN v)
    [] name = "max" -> FoldVals(Max, v, DOMAIN v)
    [] name = "min" -> FoldVals(Min, v, DOMAIN v)
LeaveWith(t, name, r) == Leave(t) /\ r = FoldOf(name, val[ent[t]])

(* P02: the default barrier.  Everyone who asks gets the one existing object;*)
(* the first to ask after a deletion makes a new one.                        *)
Get(t, o) == o # 0 /\ (inst = 0 \/ inst = o) /\ inst' = o /\ UNCHANGED <<team, ent, lev, val>>
DeleteDefault == inst' = 0 /\ UNCHANGED <<team, ent, lev, val>>

(* Everyone who began a wait has returned from it. *)
Quiescent == \A t \in Threads : ent[t] = lev[t]
=============================================================================
