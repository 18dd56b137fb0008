--------------------------- MODULE TransposeSteps ---------------------------
(* The parallel counting sort of CSR::transpose (CSR.cpp): every thread counts*)
(* the columns of its rows in a bucket row of its own; the buckets, read      *)
(* column by column, are summed up in T pieces, which one thread links and    *)
(* the others shift; then each thread scatters its entries backwards.  Every  *)
(* M x N pattern and every division of the rows into T consecutive ranges is  *)
(* covered.  Drop is the barrier left out: 0 for the design; 1 (counting),    *)
(* 2 (pieces), 3 (links), 4 (shifts) must be refuted.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, N, T, Drop
Threads == 0..(T - 1)
VARIABLES pat, cut, bucket, at, pc, left
vars == <<pat, cut, bucket, at, pc, left>>
RowsOf(t) == {i \in 0..(M - 1) : cut[t] <= i /\ i < cut[t + 1]}
(* position i of the column-by-column reading *)
P(i) == (i % T) * N + i \div T
Nnz == Cardinality(pat)
(* the entries of thread t, last first *)
RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] > y[1] \/ (x[1] = y[1] /\ x[2] >= y[2]) IN <<x>> \o Desc(S \ {x})
Init ==
  /\ pat \in SUBSET ((0..(M - 1)) \X (0..(N - 1)))
  /\ cut \in {c \in [0..T -> 0..M] : c[0] = 0 /\ c[T] = M /\ \A t \in Threads : c[t] <= c[t + 1]}
  /\ bucket = [k \in 0..(N * T - 1) |-> 99]     \* malloc: anything
  /\ at = [k \in 0..(Cardinality(pat) - 1) |-> <<-1, -1>>]
  /\ pc = [t \in Threads |-> 0] /\ left = [t \in Threads |-> <<>>]
(* phase p is at pc 2p; the barrier after it at pc 2p + 1 *)
Step(t) == pc' = [pc EXCEPT ![t] = IF Drop = @ \div 2 + 1 THEN @ + 2 ELSE @ + 1]
Barrier ==
  /\ \A t \in Threads : pc[t] \in {1, 3, 5, 7}
  /\ pc' = [t \in Threads |-> pc[t] + 1] /\ UNCHANGED <<pat, cut, bucket, at, left>>
Count(t) ==
  /\ pc[t] = 0 /\ Step(t)
  /\ bucket' = [k \in DOMAIN bucket |-> IF k \div N = t THEN Cardinality({e \in pat : e[1] \in RowsOf(t) /\ e[2] = k % N}) ELSE bucket[k]]
  /\ UNCHANGED <<pat, cut, at, left>>
RECURSIVE Scan(_, _, _)
Scan(b, i, e) == IF i >= e THEN b ELSE Scan([b EXCEPT ![P(i)] = @ + b[P(i - 1)]], i + 1, e)
Piece(t) == /\ pc[t] = 2 /\ Step(t) /\ bucket' = Scan(bucket, t * N + 1, (t + 1) * N) /\ UNCHANGED <<pat, cut, at, left>>
RECURSIVE Linked(_, _)
Linked(b, i) == IF i >= T THEN b ELSE Linked([b EXCEPT ![P(N * (i + 1) - 1)] = @ + b[P(N * i - 1)]], i + 1)
Link(t) == /\ pc[t] = 4 /\ Step(t) /\ bucket' = (IF t = 0 THEN Linked(bucket, 1) ELSE bucket) /\ UNCHANGED <<pat, cut, at, left>>
Shift(t) ==
  /\ pc[t] = 6 /\ Step(t)
  /\ bucket' = IF t = 0 THEN bucket
               ELSE [k \in DOMAIN bucket |-> IF \E i \in (t * N)..((t + 1) * N - 2) : k = P(i) THEN bucket[k] + bucket[P(N * t - 1)] ELSE bucket[k]]
  /\ left' = [left EXCEPT ![t] = Desc({e \in pat : e[1] \in RowsOf(t)})]
  /\ UNCHANGED <<pat, cut, at>>
Scatter(t) ==
  /\ pc[t] = 8
  /\ IF left[t] = <<>> THEN pc' = [pc EXCEPT ![t] = 9] /\ UNCHANGED <<bucket, at, left>>
     ELSE LET e == Head(left[t])  k == t * N + e[2]  o == bucket[k] - 1 IN
          /\ bucket' = [bucket EXCEPT ![k] = o]
          /\ at' = IF o \in DOMAIN at THEN [at EXCEPT ![o] = e] ELSE at
          /\ left' = [left EXCEPT ![t] = Tail(@)] /\ UNCHANGED pc
  /\ UNCHANGED <<pat, cut>>
Finished == \A t \in Threads : pc[t] = 9
Next == Barrier \/ (\E t \in Threads : Count(t) \/ Piece(t) \/ Link(t) \/ Shift(t) \/ Scatter(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* once all have counted and summed up, bucket[t][c] counts what comes before the end of thread t's part of row c of the transpose *)
SumOk == (\A t \in Threads : pc[t] = 7) =>
  \A t \in Threads, c \in 0..(N - 1) : bucket[t * N + c] = Cardinality({e \in pat : e[2] < c \/ (e[2] = c /\ e[1] < cut[t + 1])})
InRange == \A t \in Threads : pc[t] = 8 /\ left[t] # <<>> => bucket[t * N + Head(left[t])[2]] \in 1..Nnz
(* the entries end up ordered by column, then by row; the first bucket row holds the row pointers *)
EndOk == Finished =>
  /\ \A k \in DOMAIN at : at[k] \in pat
  /\ \A k \in DOMAIN at : k > 0 => at[k - 1][2] < at[k][2] \/ (at[k - 1][2] = at[k][2] /\ at[k - 1][1] < at[k][1])
  /\ \A c \in 0..(N - 1) : bucket[c] = Cardinality({e \in pat : e[2] < c})
Ends == <>Finished
=============================================================================
