------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices as the library presents them (raw compressed-row arrays)  *)
(* and what they mean (rows of <<column, value>> entries), plus the relation *)
(* each matrix operation must establish between its input and its output.    *)
(* Raw matrices are records m, n, rp, ci, hasVa, va, hasDp, dp, hasEp, ep,   *)
(* hasDg, dg, hasId, id (inverse diagonal times 1024); arrays are 1-based    *)
(* sequences of the stored numbers; rp[1] is the index base.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

BadNum == 2147483647

Base(r) == r.rp[1]
Nnz(r)  == r.rp[r.m + 1] - r.rp[1]

Monotone(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]

(* Structural well-formedness of the arrays themselves. *)
WellFormed(r) ==
  /\ r.m >= 0 /\ r.n >= 0
  /\ Len(r.rp) = r.m + 1
  /\ r.rp[1] \in {0, 1}
  /\ Monotone(r.rp)
  /\ Len(r.ci) = Nnz(r)
  /\ (r.hasVa => Len(r.va) = Nnz(r))
  /\ (r.hasDp => Len(r.dp) = r.m)
  /\ (r.hasEp => Len(r.ep) = r.m)
  /\ (r.hasDg => Len(r.dg) = r.m)
  /\ (r.hasId => Len(r.id) = r.m)
  /\ \A k \in 1..Len(r.ci) : r.ci[k] >= Base(r) /\ r.ci[k] < r.n + Base(r)
  /\ (r.hasEp => \A i \in 1..r.m : r.rp[i] <= r.ep[i] /\ r.ep[i] <= r.rp[i + 1])

(* Entries of row i (1-based) as <<0-based column, value>>, in stored order. *)
Row(r, i) ==
  LET off == r.rp[i] - r.rp[1]
  IN  [k \in 1..(r.rp[i + 1] - r.rp[i]) |->
         <<r.ci[off + k] - r.rp[1], IF r.hasVa THEN r.va[off + k] ELSE 1>>]
Rows(r) == [i \in 1..r.m |-> Row(r, i)]

(* Number of leading entries of row i that are local (before the boundary). *)
LocalCount(r, i) == (IF r.hasEp THEN r.ep[i] ELSE r.rp[i + 1]) - r.rp[i]

(* the same entries, each as often, in any order; entries are pairs or triples of numbers *)
LexLess(x, y) == IF x[1] # y[1] THEN x[1] < y[1]
                 ELSE IF x[2] # y[2] THEN x[2] < y[2] ELSE Len(x) = 3 /\ x[3] < y[3]
(* without repetitions the entries are compared as sets, which is the same *)
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \/ s = t
     \/ LET S == {s[k] : k \in 1..Len(s)}  T == {t[k] : k \in 1..Len(t)}
        IN  S = T /\ (Cardinality(S) = Len(s) \/ SortSeq(s, LexLess) = SortSeq(t, LexLess))

SortedByCol(row) == \A k \in 1..Len(row) - 1 : row[k][1] <= row[k + 1][1]

HasCol(row, c) == \E k \in 1..Len(row) : row[k][1] = c
ValAt(row, c)  == LET k == CHOOSE k \in 1..Len(row) : row[k][1] = c IN row[k][2]
Cols(row) == {row[k][1] : k \in 1..Len(row)}

FullDiag(r) == \A i \in 1..r.m : HasCol(Row(r, i), i - 1)

(* the stored diagonal position of row i really is row i's diagonal entry *)
DiagPtrOk(r, i) ==
  /\ r.dp[i] >= r.rp[i] /\ r.dp[i] < r.rp[i + 1]
  /\ r.ci[r.dp[i] - Base(r) + 1] - Base(r) = i - 1
DiagPtrsOk(r) == r.hasDp => \A i \in 1..r.m : HasCol(Row(r, i), i - 1) => DiagPtrOk(r, i)
(* id is the inverse of v times 1024, BadNum when that is not an integer *)
IsInverse(id, v) == IF id = BadNum THEN v = 0 \/ 1024 % (IF v < 0 THEN -v ELSE v) # 0 ELSE id * v = 1024
DiagValsOk(r) ==
  /\ (r.hasDg => \A i \in 1..r.m : HasCol(Row(r, i), i - 1) => r.dg[i] = ValAt(Row(r, i), i - 1))
  /\ (r.hasId => \A i \in 1..r.m : HasCol(Row(r, i), i - 1) => IsInverse(r.id[i], ValAt(Row(r, i), i - 1)))

-----------------------------------------------------------------------------
(* Transposition *)
(* all entries as <<row, column, value>>, row by row; a row may hold a column  *)
(* more than once                                                            *)
RECURSIVE Glue(_, _, _)
Glue(s, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN s[lo]
                   ELSE LET mid == (lo + hi) \div 2 IN Glue(s, lo, mid) \o Glue(s, mid + 1, hi)
Entries(rows) ==
  Glue([i \in 1..Len(rows) |-> [k \in 1..Len(rows[i]) |-> <<i - 1, rows[i][k][1], rows[i][k][2]>>]], 1, Len(rows))
Swapped(E) == [k \in 1..Len(E) |-> <<E[k][2], E[k][1], E[k][3]>>]

IsTranspose(A, B) ==
  /\ WellFormed(B)
  /\ B.m = A.n /\ B.n = A.m
  /\ Base(B) = Base(A)
  /\ B.hasVa = A.hasVa
  /\ ~B.hasEp
  /\ SameBag(Entries(Rows(B)), Swapped(Entries(Rows(A))))
  /\ \A j \in 1..B.m : SortedByCol(Row(B, j))
  /\ (A.hasDp => B.hasDp)
  /\ DiagPtrsOk(B)

-----------------------------------------------------------------------------
(* Permutation: rip[i+1] is the source row of row i, cp[c+1] the new column. *)
(* Only the local part of a row is relabelled; non-local columns keep theirs *)
MapCols(A, cp, rip) ==
  [i \in 1..A.m |->
     LET s == rip[i] + 1  row == Row(A, s)  lc == LocalCount(A, s)
     IN  [k \in 1..Len(row) |-> <<IF k <= lc THEN cp[row[k][1] + 1] ELSE row[k][1], row[k][2]>>]]

IsPermuted(A, B, cp, rip, sort) ==
  LET want == MapCols(A, cp, rip)
  IN
  /\ WellFormed(B)
  /\ B.m = A.m /\ B.n = A.n /\ Base(B) = Base(A)
  /\ B.hasVa = A.hasVa
  /\ B.hasEp = A.hasEp
  /\ \A i \in 1..A.m :
       LET s == rip[i] + 1  got == Row(B, i)  lc == LocalCount(A, s)
       IN  /\ LocalCount(B, i) = lc
           /\ SameBag(SubSeq(got, 1, lc), SubSeq(want[i], 1, lc))
           /\ SameBag(SubSeq(got, lc + 1, Len(got)), SubSeq(want[i], lc + 1, Len(want[i])))
           /\ (sort => SortedByCol(SubSeq(got, 1, lc)))
  (* the diagonal information follows its row *)
  /\ (A.hasId => B.hasId /\ \A i \in 1..A.m : B.id[i] = A.id[rip[i] + 1])
  /\ (A.hasDp => B.hasDp /\ \A i \in 1..A.m :
        DiagPtrOk(A, rip[i] + 1) =>
          /\ B.dp[i] >= B.rp[i] /\ B.dp[i] < B.rp[i + 1]
          /\ Row(B, i)[B.dp[i] - B.rp[i] + 1] = <<cp[rip[i] + 1], ValAt(Row(A, rip[i] + 1), rip[i])>>)
  /\ (B.hasDg => A.hasDg /\ \A i \in 1..A.m : B.dg[i] = A.dg[rip[i] + 1])

IsRowPermuted(A, B, rip) ==
  /\ WellFormed(B)
  /\ B.m = A.m /\ B.n = A.n /\ Base(B) = Base(A) /\ B.hasVa = A.hasVa
  /\ \A i \in 1..A.m : SameBag(Row(B, i), Row(A, rip[i] + 1))
  /\ (B.hasEp => A.hasEp /\ \A i \in 1..A.m : LocalCount(B, i) = LocalCount(A, rip[i] + 1))
  /\ (A.hasId => B.hasId /\ \A i \in 1..A.m : B.id[i] = A.id[rip[i] + 1])
  /\ (A.hasDp => B.hasDp /\ \A i \in 1..A.m :
        DiagPtrOk(A, rip[i] + 1) =>
          /\ B.dp[i] >= B.rp[i] /\ B.dp[i] < B.rp[i + 1]
          /\ Row(B, i)[B.dp[i] - B.rp[i] + 1][1] = rip[i])

IsRowptrPermuted(A, a) ==
  /\ Len(a.rp) = A.m + 1
  /\ a.rp[1] = Base(A)
  /\ \A i \in 1..A.m : a.rp[i + 1] - a.rp[i] = A.rp[a.rip[i] + 2] - A.rp[a.rip[i] + 1]
  /\ (A.hasEp => a.hasEp /\ Len(a.ep) = A.m /\
        \A i \in 1..A.m : a.ep[i] - a.rp[i] = A.ep[a.rip[i] + 1] - A.rp[a.rip[i] + 1])

(* In-place column permutation of a square matrix: same rows, relabelled;    *)
(* rows come out sorted, on each side of the diagonal entry when the matrix  *)
(* keeps diagonal positions.  P is the position the diagonal entry had.      *)
IsColPermuted(A, B, cp) ==
  /\ WellFormed(B)
  /\ B.m = A.m /\ B.n = A.n /\ Base(B) = Base(A)
  /\ B.hasVa = A.hasVa /\ B.hasDp = A.hasDp /\ B.hasEp = A.hasEp
  /\ B.rp = A.rp
  /\ \A i \in 1..A.m :
       LET row == Row(A, i)
           want == [k \in 1..Len(row) |-> <<cp[row[k][1] + 1], row[k][2]>>]
           got == Row(B, i)
       IN /\ SameBag(got, want)
          /\ IF A.hasDp /\ A.dp[i] >= A.rp[i] /\ A.dp[i] < A.rp[i+1]
             THEN LET d == B.dp[i] - B.rp[i] + 1
                      d0 == A.dp[i] - A.rp[i] + 1
                  IN /\ d \in 1..Len(got)
                     /\ (row[d0][1] = i - 1 =>
                           /\ got[d] = want[d0]
                           /\ SortedByCol(SubSeq(got, 1, d - 1))
                           /\ SortedByCol(SubSeq(got, d + 1, Len(got))))
             ELSE ~A.hasDp => SortedByCol(got)
  /\ B.id = A.id /\ B.dg = A.dg

-----------------------------------------------------------------------------
(* Base switch *)
Shift(s, d) == [k \in 1..Len(s) |-> s[k] + d]
Rebased(A, b) ==
  LET d == b - Base(A) IN
  [A EXCEPT !.rp = Shift(@, d), !.ci = Shift(@, d),
            !.dp = Shift(@, d), !.ep = Shift(@, d)]

(* equality up to fields that carry no information for the given matrix      *)
(* (diagonal slots of rows without a diagonal entry are unspecified)         *)
SameMatrix(A, B) ==
  /\ A.m = B.m /\ A.n = B.n /\ A.rp = B.rp /\ A.ci = B.ci
  /\ A.hasVa = B.hasVa /\ A.va = B.va
  /\ A.hasEp = B.hasEp /\ A.ep = B.ep
  /\ A.hasDp = B.hasDp /\ A.hasDg = B.hasDg /\ A.hasId = B.hasId
  /\ Len(A.dp) = Len(B.dp) /\ Len(A.dg) = Len(B.dg) /\ Len(A.id) = Len(B.id)
  /\ \A i \in 1..A.m : HasCol(Row(A, i), i - 1) =>
        /\ (A.hasDp => A.dp[i] = B.dp[i])
        /\ (A.hasDg => A.dg[i] = B.dg[i])
        /\ (A.hasId => A.id[i] = B.id[i])

-----------------------------------------------------------------------------
(* Triangular split *)
IsSplit(A, L, U) ==
  /\ WellFormed(L) /\ WellFormed(U)
  /\ L.m = A.m /\ U.m = A.m /\ L.n = A.n /\ U.n = A.n
  /\ Base(L) = Base(A) /\ Base(U) = Base(A)
  /\ L.hasVa /\ U.hasVa
  /\ \A i \in 1..A.m :
       LET row == Row(A, i)
       IN /\ SameBag(Row(L, i), SelectSeq(row, LAMBDA e : e[1] < i - 1))
          /\ SameBag(Row(U, i), SelectSeq(row, LAMBDA e : e[1] > i - 1))
  /\ L.hasId /\ L.id = A.id /\ U.hasId /\ U.id = A.id
  /\ ~L.hasEp
  /\ (A.hasEp <=> U.hasEp)
  /\ (A.hasEp => \A i \in 1..A.m :
        (* exactly the non-local entries lie behind the boundary *)
        U.rp[i + 1] - U.ep[i] = A.rp[i + 1] - A.ep[i])

-----------------------------------------------------------------------------
(* Symmetrised pattern of a square matrix, restricted to its local part *)
LocalCols(A, i) == {Row(A, i)[k][1] : k \in 1..LocalCount(A, i)}
PatternSymmetric(A) == LET lc == [i \in 1..A.m |-> LocalCols(A, i)] IN \A i \in 1..A.m : \A c \in lc[i] : i - 1 \in lc[c + 1]

IsSymPattern(A, a) ==
  /\ a.ret = PatternSymmetric(A)
  /\ IF a.ret
     THEN ~a.hasRp    (* nothing to return: the input pattern can be used *)
     ELSE LET b == Base(A)
              lc == [i \in 1..A.m |-> LocalCols(A, i)]
              nl == [i \in 1..A.m |-> Len(Row(A, i)) - LocalCount(A, i)]   (* non-local entries, kept at the end *)
              local == [i \in 1..A.m |-> [k \in 1..(a.rp[i + 1] - a.rp[i] - nl[i]) |-> a.ci[a.rp[i] - b + k] - b]]
              sc == [i \in 1..A.m |-> ToSet(local[i])] IN
       /\ Len(a.rp) = A.m + 1
       /\ a.rp[1] = b
       /\ Monotone(a.rp)
       /\ Len(a.ci) = a.rp[A.m + 1] - b
       /\ a.hasDp /\ Len(a.dp) = A.m
       /\ a.hasEp = A.hasEp
       /\ \A i \in 1..A.m : a.rp[i + 1] - a.rp[i] >= nl[i]
       (* an entry is there exactly if it or its mirror image is in the matrix *)
       /\ \A i \in 1..A.m : \A c \in sc[i] : c \in 0..A.m - 1 /\ (c \in lc[i] \/ i - 1 \in lc[c + 1])
       /\ \A i \in 1..A.m : \A c \in lc[i] : c \in sc[i] /\ i - 1 \in sc[c + 1]
       /\ \A i \in 1..A.m :
               /\ \A k \in 1..Len(local[i]) - 1 : local[i][k] < local[i][k + 1]
               /\ \A k \in 1..nl[i] : a.ci[a.rp[i + 1] - b - nl[i] + k] - b = Row(A, i)[LocalCount(A, i) + k][1]
               /\ a.dp[i] >= a.rp[i] /\ a.dp[i] < a.rp[i + 1]
               /\ a.ci[a.dp[i] - b + 1] - b = i - 1
               /\ (A.hasEp => Len(a.ep) = A.m /\ a.ep[i] = a.rp[i + 1] - nl[i])

-----------------------------------------------------------------------------
(* Predicates and metrics *)
Abs(x) == IF x < 0 THEN -x ELSE x
SetMax(S, d) == IF S = {} THEN d ELSE -(CHOOSE x \in {-y : y \in S} : \A y \in S : x <= -y)
SetMin(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y >= x
SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)

Symmetric(A, vals) ==
  IF A.m # A.n /\ ~A.hasEp THEN FALSE
  ELSE LET loc == [i \in 1..A.m |-> SubSeq(Row(A, i), 1, LocalCount(A, i))]
       IN \A i \in 1..A.m : \A k \in 1..Len(loc[i]) :
            LET c == loc[i][k][1] IN
            c < A.m =>
              /\ HasCol(loc[c + 1], i - 1)
              /\ (vals => ValAt(loc[c + 1], i - 1) = loc[i][k][2])

ZeroDiag(A) == \E i \in 1..A.m : ~(\E k \in 1..Len(Row(A, i)) : Row(A, i)[k][1] = i - 1 /\ Row(A, i)[k][2] # 0)
Bandwidth(A) == SetMax(UNION {{Abs(c - (i - 1)) : c \in Cols(Row(A, i))} : i \in 1..A.m}, -1)
RowWidth(row) == IF row = <<>> THEN 0 ELSE SetMax(Cols(row), 0) - SetMin(Cols(row), 0)
TotalWidth(A) == SumSeq([i \in 1..A.m |-> RowWidth(Row(A, i))])
MaxDegree(A) == SetMax({Len(Row(A, i)) : i \in 1..A.m}, 0)

PredOk(A, a) ==
  /\ a.sy0 = Symmetric(A, FALSE) /\ a.sy0p = a.sy0
  /\ (A.hasVa => a.sy1 = Symmetric(A, TRUE) /\ a.sy1p = a.sy1)
  /\ (a.hzv => a.hz = ZeroDiag(A))
  /\ a.bw = Bandwidth(A)
  /\ a.tw = TotalWidth(A)
  /\ a.tws = TotalWidth(A)
  /\ a.md = MaxDegree(A)
  /\ a.nz = Nnz(A)
  /\ a.b = Base(A)

Equal(A, B) == A.m = B.m /\ A.n = B.n /\ A.rp = B.rp /\ A.ci = B.ci /\ A.va = B.va
=============================================================================
