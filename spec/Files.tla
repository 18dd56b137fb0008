-------------------------------- MODULE Files --------------------------------
(* What a Matrix Market file denotes, which files must be refused, and what  *)
(* storing followed by loading must give back (P18, P19, P20).  A file is its *)
(* tokens: banner words, size line, entries; values are in eighths.          *)
EXTENDS Sparse
(* ---- coordinate files ---- *)
Supported(b) == Len(b) = 5 /\ b[1] = "%%MatrixMarket" /\ b[2] = "matrix" /\ b[3] = "coordinate"
                /\ b[4] \in {"real", "integer", "pattern"} /\ b[5] \in {"general", "symmetric"}
ZeroBased(e) == \E i \in 1..Len(e) : e[i][1] = 0 \/ e[i][2] = 0
InBounds(f) == LET lo == IF ZeroBased(f.e) THEN 0 ELSE 1 IN
  \A i \in 1..Len(f.e) : f.e[i][1] >= lo /\ f.e[i][1] < f.size[1] + lo /\ f.e[i][2] >= lo /\ f.e[i][2] < f.size[2] + lo
MirrorFile(f, force) == force \/ f.banner[5] = "symmetric"
WellFormedFile(f, force) ==
  /\ ~f.missing /\ Supported(f.banner)
  /\ ~f.badsize /\ Len(f.size) = 3 /\ f.size[1] >= 0 /\ f.size[2] >= 0
  /\ f.size[3] = Len(f.e)
  /\ InBounds(f)
  /\ MirrorFile(f, force) => f.size[1] = f.size[2]
(* an unfinished entry after the announced ones may be ignored or refused *)
Verdict(f, force) == IF ~WellFormedFile(f, force) THEN "reject" ELSE IF f.partial > 0 \/ f.junk THEN "either" ELSE "accept"
RoundUp(x, pad) == ((x + pad - 1) \div pad) * pad
Lo(a, b) == IF a < b THEN a ELSE b
(* the 1-based entries the file denotes *)
Denoted(in) ==
  LET f == in.f  sh == IF ZeroBased(f.e) THEN 1 ELSE 0  tr == in.how = 1
      E == [i \in 1..Len(f.e) |-> IF tr THEN <<f.e[i][2] + sh, f.e[i][1] + sh, f.e[i][3]>> ELSE <<f.e[i][1] + sh, f.e[i][2] + sh, f.e[i][3]>>]
      at == {<<E[i][1], E[i][2]>> : i \in 1..Len(E)}
      missing == SelectSeq(E, LAMBDA x : x[1] # x[2] /\ <<x[2], x[1]>> \notin at)
      mirror == IF MirrorFile(f, in.force) THEN [i \in 1..Len(missing) |-> <<missing[i][2], missing[i][1], missing[i][3]>>] ELSE <<>>
      d0 == Lo(f.size[1], f.size[2])  d1 == Lo(RoundUp(f.size[1], in.pad), RoundUp(f.size[2], in.pad))
      padding == [i \in 1..(d1 - d0) |-> <<d0 + i, d0 + i, 8>>]
  IN E \o mirror \o padding
LoadOk(in, out) ==
  LET v == Verdict(in.f, in.force)
      m == RoundUp(in.f.size[IF in.how = 1 THEN 2 ELSE 1], in.pad)
      n == RoundUp(in.f.size[IF in.how = 1 THEN 1 ELSE 2], in.pad)
      want == Denoted(in)
  IN /\ out.fd = 0
     /\ v = "accept" => out.ok
     /\ v = "reject" => ~out.ok
     /\ (out.ok /\ in.how # 2) =>
          /\ out.m = m /\ out.n = n /\ out.nnz = Len(out.e) /\ SameBag(out.e, want)
          /\ out.sym = MirrorFile(in.f, in.force)
     /\ (out.ok /\ in.how = 2) =>
          LET M == out.M IN
          /\ WellFormed(M) /\ M.m = m /\ M.n = n /\ Base(M) = in.base /\ Nnz(M) = Len(want)
          /\ SameBag(Entries(Rows(M)), [k \in 1..Len(want) |-> <<want[k][1] - 1, want[k][2] - 1, want[k][3]>>])
          /\ \A i \in 1..m : SortedByCol(Row(M, i))
          /\ \A i \in 1..m : IF HasCol(Row(M, i), i - 1) THEN DiagPtrOk(M, i) /\ M.dg[i] = Row(M, i)[M.dp[i] - M.rp[i] + 1][2] ELSE M.dp[i] = -5
(* the readers that hand out the entries as they stand: how 3 any field they  *)
(* support, how 4 real only; what they do with a field, a symmetry or indices *)
(* they do not look at is left open, but what they accept must be the file's  *)
CrdVerdict(in) ==
  LET f == in.f  b == f.banner IN
  IF \/ f.missing \/ Len(b) # 5 \/ b[1] # "%%MatrixMarket" \/ b[2] # "matrix" \/ b[3] # "coordinate"
     \/ b[4] \notin {"real", "integer", "pattern", "complex"} \/ b[5] \notin {"general", "symmetric", "hermitian", "skew-symmetric"}
     \/ f.badsize \/ Len(f.size) # 3 \/ f.size[1] < 0 \/ f.size[2] < 0 \/ f.size[3] < 0 \/ f.size[3] > Len(f.e)
  THEN "reject"
  ELSE IF b[5] \in {"general", "symmetric"} /\ b[4] \in (IF in.how = 3 THEN {"real", "pattern"} ELSE {"real"}) THEN "accept" ELSE "either"
CrdOk(in, out) ==
  LET v == CrdVerdict(in) IN
  /\ out.fd = 0 /\ (v = "accept" => out.ok) /\ (v = "reject" => ~out.ok)
  /\ out.ok => /\ out.m = in.f.size[1] /\ out.n = in.f.size[2] /\ out.nz = in.f.size[3]
               /\ out.e = SubSeq(in.f.e, 1, in.f.size[3])
(* ---- dense vectors ---- *)
VecVerdict(f) ==
  IF \/ f.missing \/ Len(f.banner) # 5 \/ f.banner[1] # "%%MatrixMarket" \/ f.banner[2] # "matrix" \/ f.banner[3] # "array"
     \/ f.banner[4] \notin {"real", "integer", "complex"} \/ f.badsize \/ Len(f.size) # 2 \/ f.size[1] < 0 \/ f.size[2] < 0
     \/ Len(f.e) * (IF f.banner[4] = "complex" THEN 2 ELSE 1) # f.size[1] * f.size[2]
  THEN "reject" ELSE IF f.banner[4] = "complex" \/ f.banner[5] # "general" THEN "either" ELSE "accept"
VecOk(in, out) ==
  LET v == VecVerdict(in.f) IN
  /\ out.fd = 0 /\ (v = "accept" => out.ok) /\ (v = "reject" => ~out.ok)
  /\ (out.ok /\ v = "accept") => out.m = in.f.size[1] /\ out.n = in.f.size[2] /\ out.v = [i \in 1..Len(in.f.e) |-> in.f.e[i][1]]
(* ---- binary files and round trips ---- *)
FileMat(a) == [m |-> a.m, n |-> a.n, rp |-> a.rp, ci |-> a.ci, va |-> a.va, hasVa |-> TRUE, hasEp |-> FALSE]
FileMatrix(M, a, base, ordered) ==
  LET A == FileMat(a) IN
  /\ WellFormed(M) /\ M.m = a.m /\ M.n = a.n /\ Base(M) = base /\ Nnz(M) = Nnz(A)
  /\ \A i \in 1..a.m : IF ordered THEN Row(M, i) = Row(A, i) ELSE SameBag(Row(M, i), Row(A, i))
  /\ \A i \in 1..a.m : IF HasCol(Row(M, i), i - 1) THEN DiagPtrOk(M, i) ELSE M.dp[i] = -5
BinOk(in, out) ==
  /\ out.fd = 0 /\ out.ok = ~in.bad
  /\ out.ok => FileMatrix(out.M, in.A, in.base, TRUE) /\ \A i \in 1..in.A.m : HasCol(Row(out.M, i), i - 1) => out.M.dg[i] = Row(out.M, i)[out.M.dp[i] - out.M.rp[i] + 1][2]
StoreOk(in, out) ==
  /\ out.same /\ out.fd = 0
  /\ ~in.fail => /\ out.close /\ ((in.fmt = 1 \/ in.exact) => out.exactly)
                 /\ FileMatrix(out.M, in.A, in.b2, in.fmt = 1)
MmioOk(in, out) ==
  /\ out.w = 0 /\ out.r = 0 /\ out.m = in.m /\ out.n = in.n /\ out.nz = Len(in.e) /\ out.type /\ out.e = in.e
  /\ (in.kind = 0 => out.u = in.e)
  /\ out.werr = 0 /\ out.hdr /\ out.arr /\ out.fd = 0
=============================================================================
