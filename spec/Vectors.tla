------------------------------ MODULE Vectors ------------------------------
(* Permutations applied to vectors (P16), coordinate lists as matrices (P17),*)
(* products (P22), partitions and prefix sums (P27), the 27-point stencil    *)
(* (P28).                                                                    *)
EXTENDS Sparse
IsPermOf(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n - 1)
(* ---- P16 ---- *)
ReorderOk(in, out) ==
  LET n == in.n
      Fwd(w) == Len(w) = n /\ \A i \in 1..n : w[IF in.null THEN i ELSE in.p[i] + 1] = in.v[i]
      Bwd(w) == Len(w) = n /\ \A i \in 1..n : w[i] = in.v[IF in.null THEN i ELSE in.p[i] + 1]
  IN /\ Len(out.fwd) = 5 /\ Len(out.bwd) = 5 /\ Len(out.rt) = 3
     /\ \A k \in 1..5 : Fwd(out.fwd[k]) /\ Bwd(out.bwd[k])
     /\ \A k \in 1..3 : out.rt[k] = in.v
     /\ IF in.null THEN out.src = <<in.v, in.v>>
        ELSE /\ out.src = <<in.p, in.v, in.v>>
             /\ Len(out.inv[1]) = n /\ \A i \in 1..n : out.inv[1][in.p[i] + 1] = i - 1
IsPermCallOk(in, out) ==
  LET n == Len(in.p)  perm == IsPermOf(in.p, n)
  IN /\ out.perm = perm
     /\ out.inv = (perm /\ \A i \in 1..n : in.q[in.p[i] + 1] = i - 1)
(* ---- P17 ---- *)
CooOk(in, out) ==
  LET M == out.M  withDiag == in.mode = 1 /\ in.dp
  IN /\ out.same /\ WellFormed(M) /\ M.m = in.m /\ M.n = in.n /\ Base(M) = in.base /\ Nnz(M) = Len(in.e)
     /\ SameBag(Entries(Rows(M)), in.e)
     /\ in.sort => \A i \in 1..in.m : SortedByCol(Row(M, i))
     /\ withDiag => \A i \in 1..in.m :
          IF HasCol(Row(M, i), i - 1)
          THEN /\ DiagPtrOk(M, i)
               /\ (in.sep /\ in.dd) => LET v == Row(M, i)[M.dp[i] - M.rp[i] + 1][2] IN M.dg[i] = v /\ IsInverse(M.id[i], v)
          ELSE M.dp[i] = -5
(* ---- P22 ---- *)
InMat(in) == [m |-> in.A.m, n |-> in.A.n, rp |-> in.A.rp, ci |-> in.A.ci, va |-> in.A.va, hasVa |-> TRUE, hasEp |-> FALSE]
DotRow(row, X(_)) == FoldSeq(LAMBDA e, acc : acc + e[2] * X(e[1]), 0, row)
MvOk(in, out) ==
  LET A == [InMat(in) EXCEPT !.hasVa = in.vals]
  IN /\ out.same
     /\ Len(out.w) = Len(out.w0)
     /\ \A i \in 1..A.m : out.w[i] = in.al * DotRow(Row(A, i), LAMBDA c : in.x[c + 1]) + in.be * in.y[i] + in.ga
     /\ \A i \in (A.m + 1)..Len(out.w) : out.w[i] = out.w0[i]
At(s, i, k) == 1 + i * s[1] + k * s[2]        \* place of element (i, k) of a strided matrix
MdmOk(in, out) ==
  LET A == InMat(in)
      cells == {<<i, k>> : i \in 0..(A.m - 1), k \in 0..(in.k - 1)}
      used == {At(in.ws, c[1], c[2]) : c \in cells}
  IN /\ out.same /\ Len(out.w) = Len(out.w0)
     /\ \A c \in cells : out.w[At(in.ws, c[1], c[2])] =
          in.al * DotRow(Row(A, c[1] + 1), LAMBDA j : in.x[At(in.xs, j, c[2])]) + in.be * in.y[At(in.ys, c[1], c[2])] + in.ga
     /\ \A q \in (1..Len(out.w)) \ used : out.w[q] = out.w0[q]
(* ---- P27 ---- *)
PartOk(in, out, T) ==
  LET r == out.r  n == in.n
      MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
  IN /\ Len(r) = T
     /\ r[1][1] = 0 /\ r[T][2] = n
     /\ \A t \in 1..T : 0 <= r[t][1] /\ r[t][1] <= r[t][2] /\ r[t][2] <= n
     /\ \A t \in 1..(T - 1) : r[t][2] = r[t + 1][1]
     (* no thread of the simple partition gets more than its even share, rounded up *)
     /\ in.mode = 0 => \A t \in 1..T : (r[t][2] - r[t][1] - 1) * T < n
     (* a balanced range exceeds the even share of the work by less than its last item *)
     /\ in.mode = 1 => \A t \in 1..T :
          LET b == r[t][1]  e == r[t][2]  tot == in.w[n + 1] - in.w[1] IN
          e > b => (in.w[e] - in.w[b + 1]) * T <= tot + T * T
PrefixOk(in, out, T) ==
  LET W == in.width
      at(r, t, w) == (r * T + t) * W + w + 1
      Sum(r, t, w) == FoldSeq(LAMBDA k, acc : acc + in.x[at(r, k, w)], 0, [k \in 1..t |-> k - 1])   \* threads below t
  IN \A r \in 0..(in.rounds - 1), t \in 0..(T - 1), w \in 0..(W - 1) :
       /\ out.res[at(r, t, w)] = Sum(r, t, w)
       /\ (in.same = 0 \/ r = in.rounds - 1) => out.sum[at(r, t, w)] = Sum(r, T, w)
MemOk(in, out) ==
  /\ Len(out.d) = in.off + in.n + 16
  /\ \A k \in 1..Len(out.d) : out.d[k] =
       IF k <= in.off \/ k > in.off + in.n THEN 90 ELSE IF in.op = 0 THEN in.c ELSE in.src[k - in.off]
(* buffers too large to log: the destination as the starts <<value, line, byte in line>> of its runs of
   equal bytes, including one byte past its end *)
BigMemOk(in, out) ==
  LET past == IF in.op = 0 THEN <<0, in.lines, in.rem>> ELSE <<9, in.lines, in.rem>>
      Next(p) == IF p[2] = 63 THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + 1>>
      (* the source of a copy is zero but for four marked bytes, the first and the last among them *)
      copied == {<<in.c, p[1], p[2]>> : p \in {out.marks[k] : k \in 1..4}}
                \cup {<<0, Next(out.marks[k])[1], Next(out.marks[k])[2]>> : k \in 1..3}
      runs == {out.runs[k] : k \in 1..Len(out.runs)}
  IN IF in.op = 0 THEN out.runs = << <<in.c, 0, 0>>, past >>
     ELSE /\ runs \ {<<9, in.lines, in.rem>>} = copied
          /\ Len(out.runs) = 8
(* ---- P28 ---- *)
StencilOk(in, out) ==
  LET M == out.M  nx == in.nx  ny == in.ny  nz == in.nz  m == nx * ny * nz
      X(r) == r % nx  Y(r) == (r \div nx) % ny  Z(r) == r \div (nx * ny)
      Near(a, b) == a - b \in {-1, 0, 1}
      Rng(c, hi) == {d \in {c - 1, c, c + 1} : d >= 0 /\ d < hi}
  IN /\ WellFormed(M) /\ M.m = m /\ M.n = m /\ Base(M) = in.base /\ M.hasVa /\ ~M.hasEp
     /\ M.hasDp /\ M.hasDg /\ M.hasId
     /\ \A r \in 0..(m - 1) :
          LET row == Row(M, r + 1)
              want == {(z * ny + y) * nx + x : x \in Rng(X(r), nx), y \in Rng(Y(r), ny), z \in Rng(Z(r), nz)}
          IN /\ Len(row) = Cardinality(want) /\ Cols(row) = want /\ SortedByCol(row)
             /\ \A k \in 1..Len(row) : row[k][2] = IF row[k][1] = r THEN 26 ELSE -1
     /\ DiagPtrsOk(M) /\ \A r \in 1..m : M.dg[r] = 26
=============================================================================
