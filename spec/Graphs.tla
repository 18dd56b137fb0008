------------------------------- MODULE Graphs -------------------------------
(* Undirected graphs as adjacency functions over 1..n, their components and  *)
(* distances, and what each reordering must return.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
LOCAL INSTANCE FiniteSetsExt
Adj(rows) == [i \in 1..Len(rows) |-> {rows[i][k] + 1 : k \in 1..Len(rows[i])}]
(* bipartite graph of a rectangular pattern: rows 1..m, columns m+1..m+n *)
BipAdj(rows, n) == LET m == Len(rows)  cs == TLCEval([r \in 1..m |-> ToSet(rows[r])]) IN
  [v \in 1..(m + n) |-> IF v <= m THEN {m + rows[v][k] + 1 : k \in 1..Len(rows[v])} ELSE {r \in 1..m : v - m - 1 \in cs[r]}]
RECURSIVE LayersFrom(_, _, _)
(* (asking for the sizes makes TLC sort the sets, so that looking elements up is fast) *)
LayersFrom(adj, seen, front) ==
  LET nxt == TLCEval(UNION {adj[v] : v \in front} \ seen)
  IN IF Cardinality(front) = 0 \/ Cardinality(seen) = 0 THEN <<>> ELSE <<front>> \o LayersFrom(adj, TLCEval(seen \cup nxt), nxt)
Layers(adj, s) == LayersFrom(adj, {s}, {s})
Reach(adj, s) == UNION Range(Layers(adj, s))
Dist(adj, s) ==
  LET L == Layers(adj, s)  U == TLCEval(UNION Range(L))
      V == IF U = DOMAIN adj THEN DOMAIN adj ELSE U     \* the same set; an interval is faster for TLC
  IN  TLCEval([v \in V |-> CHOOSE d \in 1..Len(L) : v \in L[d]])
(* p maps 0-based x to p[x+1]; q is its inverse *)
InversePerms(p, q, n) ==
  /\ Len(p) = n /\ Len(q) = n
  /\ \A i \in 1..n : q[i] \in 0..(n - 1)
  /\ \A i \in 1..n : p[q[i] + 1] = i - 1

(* ---- connected components ---- *)
ComponentsOk(in, out) ==
  LET adj == Adj(in.rows)  S == (1..in.m) \ {in.excl[k] + 1 : k \in 1..Len(in.excl)}
      Block(c) == {out.nodes[k] + 1 : k \in (out.start[c] + 1)..(out.start[c] + out.size[c])}
  IN /\ out.n = Len(out.root) /\ out.n = Len(out.size) /\ out.n = Len(out.start)
     /\ Len(out.nodes) = Cardinality(S) /\ {out.nodes[k] + 1 : k \in 1..Len(out.nodes)} = S
     /\ (out.n = 0 <=> S = {})
     /\ \A c \in 1..out.n : out.size[c] >= 1 /\ out.start[c] = (IF c = 1 THEN 0 ELSE out.start[c - 1] + out.size[c - 1])
     /\ (out.n > 0 => out.start[out.n] + out.size[out.n] = Cardinality(S))
     /\ \A c \in 1..out.n : out.root[c] + 1 \in Block(c) /\ Block(c) = Reach(adj, out.root[c] + 1)

(* ---- orders: o is a sequence of all nodes.  Split cuts it into components: a sequence of   *)
(* <<nodes in order, distance from the first>>, or <<"bad">> if components are not contiguous *)
RECURSIVE Split(_, _)
Split(adj, o) ==
  IF o = <<>> THEN <<>> ELSE
  LET D == Dist(adj, o[1])  k == Cardinality(DOMAIN D)
      seg == SubSeq(o, 1, IF k <= Len(o) THEN k ELSE Len(o))
  IN IF k > Len(o) \/ ToSet(seg) # DOMAIN D THEN <<[seg |-> seg, D |-> D, ok |-> FALSE]>>
     ELSE <<[seg |-> seg, D |-> D, ok |-> TRUE]>> \o Split(adj, SubSeq(o, k + 1, Len(o)))
NonDecreasing(seg, D) == \A i \in 1..(Len(seg) - 1) : D[seg[i]] <= D[seg[i + 1]]
BfsOk(in, out) ==
  /\ out.same /\ InversePerms(out.perm, out.inv, in.m)
  /\ \A c \in Range(Split(Adj(in.rows), [i \in 1..in.m |-> out.inv[i] + 1])) : c.ok /\ NonDecreasing(c.seg, c.D)
(* Cuthill-McKee: inside a distance, by earliest-placed neighbour, then by degree *)
RcmOk(in, out) ==
  LET adj == Adj(in.rows)
      Deg(v) == Len(in.rows[v])
      CM(seg, D) ==
        LET pos == [v \in ToSet(seg) |-> in.m - out.perm[v]]    \* place in the order
            parent == [v \in ToSet(seg) |-> IF v = seg[1] THEN 0 ELSE Min({pos[u] : u \in adj[v] \ {v}})]
        IN /\ NonDecreasing(seg, D)
           /\ \A i \in 2..(Len(seg) - 1) :
                D[seg[i]] = D[seg[i + 1]] =>
                   \/ parent[seg[i]] < parent[seg[i + 1]]
                   \/ parent[seg[i]] = parent[seg[i + 1]] /\ Deg(seg[i]) <= Deg(seg[i + 1])
  IN /\ out.same /\ InversePerms(out.perm, out.inv, in.m)
     /\ \A c \in Range(Split(adj, [i \in 1..in.m |-> out.inv[in.m + 1 - i] + 1])) : c.ok /\ CM(c.seg, c.D)
(* ---- bipartite: rows and columns of a component are consecutive ranges ---- *)
(* the greatest element; TLC looks at the smallest candidate first *)
Top(S) == -(CHOOSE x \in {-y : y \in S} : \A y \in S : x <= -y)
BipOk(in, out) ==
  /\ out.same /\ InversePerms(out.rp, out.ri, in.m) /\ InversePerms(out.cp, out.ci, in.n)
  /\ LET adj == BipAdj(in.rows, in.n)  m == in.m
         (* the component of row v, whose first place is i *)
         Whole(D, i) ==
           LET R == {v \in DOMAIN D : v <= m}  C == DOMAIN D \ R
               rpos == TLCEval({out.rp[v] + 1 : v \in R})  cpos == TLCEval({out.cp[v - m] + 1 : v \in C})
               Seq2(pos, inv, off) == LET lo == Min(pos) IN TLCEval([k \in 1..Cardinality(pos) |-> inv[lo + k - 1] + 1 + off])
           IN /\ Min(rpos) = i
              /\ Top(rpos) - i + 1 = Cardinality(R) /\ NonDecreasing(Seq2(rpos, out.ri, 0), D)
              /\ C # {} => Top(cpos) - Min(cpos) + 1 = Cardinality(C) /\ NonDecreasing(Seq2(cpos, out.ci, m), D)
         Step(acc, i) ==
           IF ~acc.ok \/ out.ri[i] + 1 \in acc.seen THEN acc
           ELSE LET D == Dist(adj, out.ri[i] + 1) IN [ok |-> Whole(D, i), seen |-> acc.seen \cup {v \in DOMAIN D : v <= m}]
     IN FoldLeft(Step, [ok |-> TRUE, seen |-> {}], [i \in 1..m |-> i]).ok
=============================================================================