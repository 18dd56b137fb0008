----------------------------- MODULE MemPoolGen -----------------------------
(* Explores the pool; with GEN = "all" it prints one history per transition of the *)
(* abstract state graph (a shortest path to its source, then the operation), *)
(* which the driver replays on the real pool.                                *)
EXTENDS MemPool, Json
CONSTANTS Sizes, Align, Reqs, MaxLive, GEN, MaxNext
VARIABLES s, hist
vars == <<s, hist>>
Ops == {<<"back", n, 0>> : n \in Reqs} \cup {<<"front", n, 0>> : n \in Reqs} \cup {<<"clear", 0, 0>>}
       \cup {<<"init", z, 0>> : z \in Sizes}
       \cup {<<"head", o, k>> : o \in 0..(s.size - 1), k \in 0..MaxLive} \cup {<<"tail", o, k>> : o \in 0..(s.size - 1), k \in 0..MaxLive}
Init == \E z \in Sizes : s = Fresh(z) /\ hist = <<<<"init", z, 0>>>>
Next == \E op \in Ops :
  /\ Allowed(s, op, Align)
  /\ op[1] \in {"back", "front"} => Len(s.live) < MaxLive
  /\ s' = Apply(s, op, Align)
  /\ hist' = Append(hist, op)
  /\ (GEN = "all" \/ (GEN = "end" /\ Len(hist') = MaxNext)) => PrintT("GEN " \o ToJson(<<Align, hist'>>))
Spec == Init /\ [][Next]_vars
(* identity of a block and the last result do not distinguish states *)
View == <<s.size, s.h, s.t, [i \in 1..Len(s.live) |-> <<s.live[i].o, s.live[i].n, s.live[i].b, s.live[i].e>>]>>
Bounded == Len(hist) <= MaxNext
Inside == BlocksInside(s)
Disjoint == BlocksDisjoint(s)
Covered == BlocksCovered(s)
WellAligned == Aligned(s, Align)
=============================================================================
