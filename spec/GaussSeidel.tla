----------------------------- MODULE GaussSeidel -----------------------------
(* Sequential semantics of the sweeps: rows in increasing order forward,     *)
(* decreasing order backward.  Diagonals are 1 or -1, so dividing by the     *)
(* diagonal is multiplying by it.  rows[i] = sequence of <<col, val>>.       *)
EXTENDS Sparse
Diag(row, i) == ValAt(row, i - 1)
Dot(row, v, P(_)) == FoldSeq(LAMBDA e, acc : IF P(e[1]) THEN acc + e[2] * v[e[1] + 1] ELSE acc, 0, row)
UpRows(m) == [k \in 1..m |-> k]
DownRows(m) == [k \in 1..m |-> m + 1 - k]
(* st = [y, b]; op: 0 GS forward, 1 GS backward, 2 lower solve, 3 upper     *)
(* solve, 4 lower solve fused with b = y - L x                               *)
Sweep(rows, x, st, op) ==
  FoldLeft(LAMBDA q, i :
     LET row == rows[i]  d == Diag(row, i)
         all == Dot(row, q.y, LAMBDA c : TRUE)
         lo == Dot(row, q.y, LAMBDA c : c < i - 1)
         up == Dot(row, q.y, LAMBDA c : c > i - 1)
         new == CASE op \in {0, 1} -> q.y[i] + (q.b[i] - all) * d
                  [] op \in {2, 4} -> (q.b[i] - lo) * d
                  [] op = 3 -> (q.b[i] - up) * d
     IN [y |-> [q.y EXCEPT ![i] = new],
         b |-> IF op = 4 THEN [q.b EXCEPT ![i] = new - Dot(row, x, LAMBDA c : c < i - 1)] ELSE q.b],
     st, IF op \in {1, 3} THEN DownRows(Len(rows)) ELSE UpRows(Len(rows)))
RunOps(rows, x, st, ops) == FoldLeft(LAMBDA q, op : Sweep(rows, x, q, op), st, ops)
SolveOk(in, out) ==
  LET A == [m |-> in.A.m, n |-> in.A.n, rp |-> in.A.rp, ci |-> in.A.ci, va |-> in.A.va, hasVa |-> TRUE, hasEp |-> FALSE]
      r == RunOps(Rows(A), in.x, [y |-> in.y, b |-> in.b], in.ops)
  IN /\ Len(out.y) = in.n /\ Len(out.o2t) = in.n /\ Len(out.b) = in.m
     /\ \A i \in 1..in.n : out.y[out.o2t[i] + 1] = r.y[i]
     /\ \A i \in 1..in.m : out.b[out.o2t[i] + 1] = r.b[i]
=============================================================================
