------------------------------ MODULE BfsStep ------------------------------
(* The parallel breadth-first search of reordering/RCM.cpp (bfs_): queues per *)
(* thread and parity of the level, the division of a frontier by the number   *)
(* of adjacent entries (prefix sums over threads, then within a queue), and   *)
(* the visited vector, read and then set without atomicity when the visited   *)
(* nodes are not listed (Atomic = FALSE) and by test-and-set when they are.   *)
(* Every undirected graph on 1..N is covered, source 1, loops allowed by Loop.*)
(* Variant = "ok" is the design; these must be refuted:                       *)
(*   "nojoin"  leaves out the barrier between dividing a frontier and using it*)
(*   "nosum"   leaves out the barrier between summing up and dividing         *)
(*   "first"   thread 1 too starts where the formula says                     *)
(*   "getset"  lists the visited nodes without test-and-set                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, Atomic, Loop, Variant
Nodes == 1..N
Pairs == {p \in Nodes \X Nodes : p[1] < p[2]}
Threads == 1..T
VARIABLES edges,
          q, rows, nps, tps,      \* q[parity][t], per-thread prefix sums of entries, prefix sums over threads
          nl,                     \* level being discovered; parity of q follows it
          seen, lev, out,
          pc, todo, cur           \* of each thread: entries still to follow; node found unseen
vars == <<edges, q, rows, nps, tps, nl, seen, lev, out, pc, todo, cur>>
Nbr(u) == {v \in Nodes : <<u, v>> \in edges \/ <<v, u>> \in edges} \cup IF Loop THEN {u} ELSE {}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Adj(u) == SetSeq(Nbr(u))
Deg(u) == Cardinality(Nbr(u))
(* rows of a queue: prefix sums starting at 0 *)
RowSums(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + Deg(s[i]) IN f
Init ==
  /\ edges \in SUBSET Pairs
  /\ q = [p \in 0..1 |-> [t \in Threads |-> IF p = 0 /\ t = 1 THEN <<1>> ELSE <<>>]]
  /\ rows = [t \in Threads |-> IF t = 1 THEN RowSums(<<1>>) ELSE (0 :> 0)]
  /\ nps = [k \in 0..T |-> IF k = 1 THEN Deg(1) ELSE 0] /\ tps = [k \in 0..T |-> 0]
  /\ nl = 0 /\ seen = {1} /\ lev = [v \in Nodes |-> IF v = 1 THEN 0 ELSE -1] /\ out = <<>>
  /\ pc = [t \in Threads |-> "w1"] /\ todo = [t \in Threads |-> <<>>] /\ cur = [t \in Threads |-> 0]
Set(f, t, v) == [f EXCEPT ![t] = v]
Sums(f) == [k \in 0..T |-> LET s[j \in 0..T] == IF j = 0 THEN 0 ELSE s[j - 1] + f[j] IN s[k]]
Waits == {"w1", "w2", "w3"}
Release ==
  /\ \A t \in Threads : pc[t] \in Waits
  /\ pc' = [t \in Threads |-> CASE pc[t] = "w1" -> IF t = 1 THEN "sum" ELSE IF Variant = "nosum" THEN "divide" ELSE "w2"
                                [] pc[t] = "w2" -> "divide" [] pc[t] = "w3" -> "work"]
  /\ UNCHANGED <<edges, q, rows, nps, tps, nl, seen, lev, out, todo, cur>>
Sum ==
  /\ pc[1] = "sum"
  /\ tps' = Sums([t \in 1..T |-> Len(q[nl % 2][t])]) /\ nps' = Sums(nps) /\ nl' = nl + 1
  /\ pc' = Set(pc, 1, IF Variant = "nosum" THEN "divide" ELSE "w2")
  /\ UNCHANGED <<edges, q, rows, seen, lev, out, todo, cur>>
(* number of leading values of a non-decreasing sequence f[0..n-1] that are <= x *)
Upper(f, n, x) == Cardinality({i \in 0..(n - 1) : i \in DOMAIN f /\ f[i] <= x})
(* where share k of the frontier starts: <<thread, index in its queue>>, both from 0 *)
Old == q[(nl + 1) % 2]
Cut(k) ==
  LET per == (nps[T] + T - 1) \div T
      tb == Upper(nps, T + 1, per * k) - 1 IN
  IF tb >= T THEN <<T, 0>>
  ELSE <<tb, Upper(rows[tb + 1], Len(Old[tb + 1]), per * k - nps[tb]) - 1>>
RECURSIVE Take(_, _)    \* the nodes from a to b, in order
Take(a, b) ==
  IF a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2]) \/ a[1] >= T THEN <<>>
  ELSE IF a[2] >= Len(Old[a[1] + 1]) THEN Take(<<a[1] + 1, 0>>, b)
  ELSE (IF a[2] < 0 THEN <<>> ELSE <<Old[a[1] + 1][a[2] + 1]>>) \o Take(<<a[1], a[2] + 1>>, b)
Share(t) == Take(IF t = 1 /\ Variant # "first" THEN <<0, 0>> ELSE Cut(t - 1), Cut(t))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Adj(Head(s)) \o Flat(Tail(s))
Divide(t) ==
  /\ pc[t] = "divide"
  /\ IF tps[T] = 0 THEN pc' = Set(pc, t, "out") /\ UNCHANGED <<todo, out>>
     ELSE /\ todo' = Set(todo, t, Share(t))
          /\ out' = out \o Old[t]
          /\ pc' = Set(pc, t, IF Variant = "nojoin" THEN "work" ELSE "w3")
  /\ UNCHANGED <<edges, q, rows, nps, tps, nl, seen, lev, cur>>
(* the thread starts on its share: its queue of the other parity is empty again *)
Start(t) ==
  /\ pc[t] = "work"
  /\ todo' = Set(todo, t, Flat(todo[t])) /\ q' = [q EXCEPT ![nl % 2][t] = <<>>] /\ rows' = Set(rows, t, 0 :> 0)
  /\ pc' = Set(pc, t, "look")
  /\ UNCHANGED <<edges, nps, tps, nl, seen, lev, out, cur>>
Add(t, v) ==
  /\ q' = [q EXCEPT ![nl % 2][t] = Append(@, v)]
  /\ rows' = Set(rows, t, rows[t] @@ (Len(q[nl % 2][t]) + 1 :> rows[t][Len(q[nl % 2][t])] + Deg(v)))
  /\ lev' = [lev EXCEPT ![v] = nl]
Look(t) ==
  /\ pc[t] = "look" /\ todo[t] # <<>>
  /\ LET v == Head(todo[t]) IN
     IF v \in seen THEN todo' = Set(todo, t, Tail(todo[t])) /\ UNCHANGED <<q, rows, lev, seen, pc, cur>>
     ELSE IF Atomic /\ Variant # "getset" THEN seen' = seen \cup {v} /\ Add(t, v) /\ todo' = Set(todo, t, Tail(todo[t])) /\ UNCHANGED <<pc, cur>>
     ELSE pc' = Set(pc, t, "set") /\ cur' = Set(cur, t, v) /\ todo' = Set(todo, t, Tail(todo[t])) /\ UNCHANGED <<q, rows, lev, seen>>
  /\ UNCHANGED <<edges, nps, tps, nl, out>>
Mark(t) ==
  /\ pc[t] = "set" /\ seen' = seen \cup {cur[t]} /\ Add(t, cur[t]) /\ pc' = Set(pc, t, "look")
  /\ UNCHANGED <<edges, nps, tps, nl, out, todo, cur>>
Close(t) ==
  /\ pc[t] = "look" /\ todo[t] = <<>>
  /\ nps' = [nps EXCEPT ![t] = rows[t][Len(q[nl % 2][t])]] /\ pc' = Set(pc, t, "w1")
  /\ UNCHANGED <<edges, q, rows, tps, nl, seen, lev, out, todo, cur>>
Finished == \A t \in Threads : pc[t] = "out"
Next == \/ Release \/ Sum \/ (\E t \in Threads : Divide(t) \/ Start(t) \/ Look(t) \/ Mark(t) \/ Close(t))
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
RECURSIVE Grow(_, _, _)
Grow(d, frontier, l) == IF frontier = {} THEN d
  ELSE LET nxt == {v \in Nodes : d[v] = -1 /\ \E u \in frontier : v \in Nbr(u)} IN
       Grow([v \in Nodes |-> IF v \in nxt THEN l + 1 ELSE d[v]], nxt, l + 1)
Dist == Grow([v \in Nodes |-> IF v = 1 THEN 0 ELSE -1], {1}, 0)
Ecc == CHOOSE l \in {Dist[v] : v \in Nodes} : \A v \in Nodes : Dist[v] <= l
(* no level is ever written wrong *)
LevOk == \A v \in Nodes : lev[v] \in {-1, Dist[v]}
(* the shares of the threads are the frontier, each queue entry once, in order *)
Glue(f) == LET s[k \in 0..T] == IF k = 0 THEN <<>> ELSE s[k - 1] \o f[k] IN s[T]
ShareOk == (\A t \in Threads : pc[t] = "w3") => Glue(todo) = Glue(Old)
(* a thread's queue holds a node at most once, so the room of N per thread is enough *)
RoomOk == \A p \in 0..1, t \in Threads : \A i, j \in 1..Len(q[p][t]) : i # j => q[p][t][i] # q[p][t][j]
EndOk == Finished =>
  /\ lev = Dist /\ nl = Ecc + 2 /\ seen = {v \in Nodes : Dist[v] # -1}
  /\ Atomic => Len(out) = Cardinality(seen) /\ \A i, j \in 1..Len(out) : i < j => out[i] # out[j] /\ Dist[out[i]] <= Dist[out[j]]
Ends == <>Finished
=============================================================================
