------------------------------ MODULE RcmPlace ------------------------------
(* The place phase of reverse Cuthill-McKee (reordering/RCM.cpp): the levels  *)
(* of a component are dealt to the threads, and the thread of level l places  *)
(* the children of the nodes of level l as soon as the thread of level l-1    *)
(* has placed these nodes, told by a write offset per level on which it spins.*)
(* Nodes are 1..N, the source is 1, every connected graph on them is covered. *)
(* Variant = "ok" is the design; these must be refuted:                       *)
(*   "early"   moves the offset before it stores the node                     *)
(*   "claim"   lets two parents of one level both take a common child         *)
(*   "nobar"   starts placing before every offset is set (offsets of a        *)
(*             component placed before are still there)                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, Variant
Nodes == 1..N
Pairs == {p \in Nodes \X Nodes : p[1] < p[2]}
VARIABLES edges, dist, base,            \* the graph, the levels, and the start of each level in the order
          claimed,                      \* nodes a parent has taken
          order, off,                   \* the order so far (0 = not stored), the write offset of each level
          pc, lv, r, w, kids            \* of each thread
vars == <<edges, dist, base, claimed, order, off, pc, lv, r, w, kids>>
Nbr(E, u) == {v \in Nodes : <<u, v>> \in E \/ <<v, u>> \in E}
RECURSIVE Grow(_, _, _, _)
Grow(E, d, frontier, l) == IF frontier = {} THEN d
  ELSE LET nxt == {v \in Nodes : d[v] = -1 /\ \E u \in frontier : v \in Nbr(E, u)} IN
       Grow(E, [v \in Nodes |-> IF v \in nxt THEN l + 1 ELSE d[v]], nxt, l + 1)
Levels(E) == Grow(E, [v \in Nodes |-> IF v = 1 THEN 0 ELSE -1], {1}, 0)
Depth == LET D == {dist[v] : v \in Nodes} IN CHOOSE l \in D : \A k \in D : k <= l
(* children are sorted by degree, then by number *)
Deg(E, u) == Cardinality(Nbr(E, u))
RECURSIVE Sorted(_, _)
Sorted(E, S) == IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : Deg(E, x) < Deg(E, y) \/ (Deg(E, x) = Deg(E, y) /\ x <= y) IN <<x>> \o Sorted(E, S \ {x})
(* the serial Cuthill-McKee order *)
RECURSIVE Serial(_, _, _)
Serial(E, s, i) == IF i > Len(s) THEN s
  ELSE Serial(E, s \o Sorted(E, {v \in Nbr(E, s[i]) : \A k \in 1..Len(s) : s[k] # v}), i + 1)
Init ==
  /\ edges \in {E \in SUBSET Pairs : \A v \in Nodes : Levels(E)[v] # -1}
  /\ dist = Levels(edges)
  /\ base = [l \in 0..N |-> Cardinality({v \in Nodes : dist[v] < l})]
  /\ claimed = {} /\ order = [i \in 0..(N - 1) |-> IF i = 0 THEN 1 ELSE 0]
  /\ off = [l \in 0..N |-> IF Variant = "nobar" THEN N ELSE -1]
  /\ pc = [t \in 1..T |-> "init"] /\ lv = [t \in 1..T |-> t - 1]
  /\ r = [t \in 1..T |-> 0] /\ w = [t \in 1..T |-> 0] /\ kids = [t \in 1..T |-> <<>>]
Set(f, t, v) == [f EXCEPT ![t] = v]
(* the offsets of the thread's levels, one store at a time *)
InitOff(t) ==
  /\ pc[t] = "init"
  /\ IF lv[t] <= Depth + 1
     THEN off' = [off EXCEPT ![lv[t]] = IF lv[t] = 0 THEN 1 ELSE base[lv[t]]] /\ lv' = Set(lv, t, lv[t] + T) /\ UNCHANGED pc
     ELSE pc' = Set(pc, t, IF Variant = "nobar" THEN "level" ELSE "bar") /\ lv' = Set(lv, t, t - 1) /\ UNCHANGED off
  /\ UNCHANGED <<edges, dist, base, claimed, order, r, w, kids>>
Bar == /\ (\A t \in 1..T : pc[t] = "bar") /\ pc' = [t \in 1..T |-> "level"]
       /\ UNCHANGED <<edges, dist, base, claimed, order, off, lv, r, w, kids>>
Level(t) ==
  /\ pc[t] = "level"
  /\ IF lv[t] > Depth THEN pc' = Set(pc, t, "done") /\ UNCHANGED r
     ELSE r' = Set(r, t, base[lv[t]]) /\ pc' = Set(pc, t, "spin")
  /\ UNCHANGED <<edges, dist, base, claimed, order, off, lv, w, kids>>
End(t) == base[lv[t] + 1]
Spin(t) ==
  /\ pc[t] = "spin"
  /\ IF r[t] = End(t) THEN pc' = Set(pc, t, "level") /\ lv' = Set(lv, t, lv[t] + T)
     ELSE off[lv[t]] # r[t] /\ pc' = Set(pc, t, "take") /\ UNCHANGED lv
  /\ UNCHANGED <<edges, dist, base, claimed, order, off, r, w, kids>>
(* reads the node and its children, takes these and reads where they go *)
Take(t) ==
  /\ pc[t] = "take"
  /\ LET u == order[r[t]]
         C == IF u = 0 THEN {} ELSE {v \in Nbr(edges, u) : dist[v] = lv[t] + 1 /\ v \notin claimed} IN
     /\ kids' = Set(kids, t, Sorted(edges, C))
     /\ claimed' = IF Variant = "claim" THEN claimed ELSE claimed \cup C
     /\ pc' = Set(pc, t, IF u = 0 THEN "garbage" ELSE IF C = {} THEN "spin" ELSE "put")
  /\ r' = Set(r, t, r[t] + 1) /\ w' = Set(w, t, off[lv[t] + 1])
  /\ UNCHANGED <<edges, dist, base, order, off, lv>>
Store(t) == IF w[t] \in 0..(N - 1) THEN order' = [order EXCEPT ![w[t]] = Head(kids[t])] ELSE UNCHANGED order
Publish(t) == off' = [off EXCEPT ![lv[t] + 1] = w[t] + 1]
Put(t) ==
  /\ pc[t] = "put" /\ pc' = Set(pc, t, "put2")
  /\ IF Variant = "early" THEN Publish(t) /\ UNCHANGED order ELSE Store(t) /\ UNCHANGED off
  /\ UNCHANGED <<edges, dist, base, claimed, lv, r, w, kids>>
Put2(t) ==
  /\ pc[t] = "put2"
  /\ IF Variant = "early" THEN Store(t) /\ UNCHANGED off ELSE Publish(t) /\ UNCHANGED order
  /\ kids' = Set(kids, t, Tail(kids[t])) /\ w' = Set(w, t, w[t] + 1)
  /\ pc' = Set(pc, t, IF Len(kids[t]) = 1 THEN "spin" ELSE "put")
  /\ UNCHANGED <<edges, dist, base, claimed, lv, r>>
Finished == \A t \in 1..T : pc[t] = "done"
Next == \/ \E t \in 1..T : InitOff(t) \/ Level(t) \/ Spin(t) \/ Take(t) \/ Put(t) \/ Put2(t)
        \/ Bar \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
(* no thread reads a slot of the order that has not been stored, or writes outside its level *)
ReadOk == \A t \in 1..T : pc[t] # "garbage"
WriteOk == \A t \in 1..T : pc[t] \in {"put", "put2"} => w[t] >= base[lv[t] + 1] /\ w[t] < (IF lv[t] + 2 > N THEN N ELSE base[lv[t] + 2])
(* whatever the schedule, the result is the serial order *)
EndOk == Finished => \A i \in 0..(N - 1) : order[i] = Serial(edges, <<1>>, 1)[i + 1]
Ends == <>Finished
=============================================================================
