------------------------------ MODULE UnionFind ------------------------------
(* Rem's concurrent union-find as the component search runs it, one shared   *)
(* access per step: every thread unites its own list of edges, all meet at a *)
(* barrier, then every thread compresses the paths of its own nodes while    *)
(* the others walk over them.                                                *)
(* RootStore = TRUE is the variant in which a thread whose compare-and-swap  *)
(* on a root failed stores into the root anyway: it loses unions.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, MaxEdges, RootStore
Nodes == 1..N
Threads == 1..T
Pairs == {e \in Nodes \X Nodes : e[1] # e[2]}
Lists == UNION {[1..k -> Pairs] : k \in 0..MaxEdges}
VARIABLES p, edges, pc, i, rx, ry, px, py, w, own
vars == <<p, edges, pc, i, rx, ry, px, py, w, own>>
Owned(t) == {v \in Nodes : v % T = t - 1}
Init ==
  /\ edges \in [Threads -> Lists]
  /\ p = [v \in Nodes |-> v]
  /\ pc = [t \in Threads |-> "next"] /\ i = [t \in Threads |-> 1]
  /\ rx = [t \in Threads |-> 0] /\ ry = [t \in Threads |-> 0] /\ px = [t \in Threads |-> 0] /\ py = [t \in Threads |-> 0]
  /\ w = [t \in Threads |-> 0] /\ own = [t \in Threads |-> Owned(t)]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
(* take the next edge and look whether both ends already have the same parent *)
NextEdge(t) ==
  /\ pc[t] = "next"
  /\ IF i[t] > Len(edges[t]) THEN Goto(t, "barrier") /\ UNCHANGED <<rx, ry>>
     ELSE /\ rx' = [rx EXCEPT ![t] = edges[t][i[t]][1]] /\ ry' = [ry EXCEPT ![t] = edges[t][i[t]][2]] /\ Goto(t, "peekx")
  /\ UNCHANGED <<p, edges, i, px, py, w, own>>
PeekX(t) == /\ pc[t] = "peekx" /\ px' = [px EXCEPT ![t] = p[rx[t]]] /\ Goto(t, "peeky") /\ UNCHANGED <<p, edges, i, rx, ry, py, w, own>>
PeekY(t) ==
  /\ pc[t] = "peeky"
  /\ IF px[t] = p[ry[t]] THEN i' = [i EXCEPT ![t] = @ + 1] /\ Goto(t, "next") ELSE Goto(t, "readx") /\ UNCHANGED i
  /\ UNCHANGED <<p, edges, rx, ry, px, py, w, own>>
ReadX(t) == /\ pc[t] = "readx" /\ px' = [px EXCEPT ![t] = p[rx[t]]] /\ Goto(t, "ready") /\ UNCHANGED <<p, edges, i, rx, ry, py, w, own>>
ReadY(t) ==
  /\ pc[t] = "ready"
  /\ LET a == px[t]  b == p[ry[t]] IN
     IF a = b THEN i' = [i EXCEPT ![t] = @ + 1] /\ Goto(t, "next") /\ UNCHANGED <<rx, ry, px, py>>
     ELSE /\ UNCHANGED i
          /\ IF a > b THEN px' = px /\ py' = [py EXCEPT ![t] = b] /\ UNCHANGED <<rx, ry>>
                      ELSE px' = [px EXCEPT ![t] = b] /\ py' = [py EXCEPT ![t] = a] /\ rx' = [rx EXCEPT ![t] = ry[t]] /\ ry' = [ry EXCEPT ![t] = rx[t]]
          /\ Goto(t, IF px'[t] = rx'[t] THEN "cas" ELSE "store")
  /\ UNCHANGED <<p, edges, w, own>>
Cas(t) ==
  /\ pc[t] = "cas"
  /\ IF p[rx[t]] = rx[t] THEN p' = [p EXCEPT ![rx[t]] = py[t]] /\ i' = [i EXCEPT ![t] = @ + 1] /\ Goto(t, "next")
     ELSE UNCHANGED <<p, i>> /\ Goto(t, IF RootStore THEN "store" ELSE "readx")
  /\ UNCHANGED <<edges, rx, ry, px, py, w, own>>
Store(t) == /\ pc[t] = "store" /\ p' = [p EXCEPT ![rx[t]] = py[t]] /\ rx' = [rx EXCEPT ![t] = px[t]] /\ Goto(t, "readx")
  /\ UNCHANGED <<edges, i, ry, px, py, w, own>>
Barrier == (\A t \in Threads : pc[t] = "barrier") /\ pc' = [t \in Threads |-> "pick"] /\ UNCHANGED <<p, edges, i, rx, ry, px, py, w, own>>
(* path compression *)
Pick(t) ==
  /\ pc[t] = "pick"
  /\ IF own[t] = {} THEN Goto(t, "done") /\ UNCHANGED <<rx, w>>
     ELSE LET v == CHOOSE v \in own[t] : TRUE IN rx' = [rx EXCEPT ![t] = v] /\ w' = [w EXCEPT ![t] = v] /\ Goto(t, "walk")
  /\ UNCHANGED <<p, edges, i, ry, px, py, own>>
Walk(t) ==
  /\ pc[t] = "walk"
  /\ IF p[w[t]] # w[t] THEN w' = [w EXCEPT ![t] = p[w[t]]] /\ UNCHANGED pc ELSE Goto(t, "link") /\ UNCHANGED w
  /\ UNCHANGED <<p, edges, i, rx, ry, px, py, own>>
Link(t) == /\ pc[t] = "link" /\ p' = [p EXCEPT ![rx[t]] = w[t]] /\ own' = [own EXCEPT ![t] = @ \ {rx[t]}] /\ Goto(t, "pick")
  /\ UNCHANGED <<edges, i, rx, ry, px, py, w>>
Done == (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Next == Barrier \/ Done \/ \E t \in Threads : NextEdge(t) \/ PeekX(t) \/ PeekY(t) \/ ReadX(t) \/ ReadY(t) \/ Cas(t) \/ Store(t) \/ Pick(t) \/ Walk(t) \/ Link(t)
Spec == Init /\ [][Next]_vars
(* ---- what must hold ---- *)
AllEdges == UNION {{edges[t][k] : k \in 1..Len(edges[t])} : t \in Threads}
RECURSIVE Grow(_)
Grow(S) == LET G == S \cup {v \in Nodes : \E e \in AllEdges : (e[1] \in S /\ e[2] = v) \/ (e[2] \in S /\ e[1] = v)} IN IF G = S THEN S ELSE Grow(G)
Comp(v) == Grow({v})
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Decreasing == \A v \in Nodes : p[v] <= v               \* hence no cycle: every walk ends
Sound == \A v \in Nodes : p[v] \in Comp(v)             \* only connected nodes are ever linked
Correct == (\A t \in Threads : pc[t] = "done") => \A v \in Nodes : p[v] = Min(Comp(v))
=============================================================================
