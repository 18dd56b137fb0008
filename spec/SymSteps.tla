------------------------------ MODULE SymSteps ------------------------------
(* The parallel completion of a pattern to a symmetric one                   *)
(* (getSymmetricNnzPattern, SymGS.cpp): the threads store the row lengths of *)
(* their rows, add one to row c for every entry (i, c) without (c, i), one   *)
(* thread sums the lengths up, the rows are copied, the missing entries are  *)
(* appended, and the rows are sorted.  Every pattern on N x N is covered.    *)
(* Variant = "ok" is the design; these must be refuted:                      *)
(*   "plain"   adds to the length of another row without atomicity           *)
(*   "slot"    takes the slot for a missing entry without atomicity          *)
(*   "b1" .. "b4" leave out the barrier after the lengths, after the counts, *)
(*             after the copies, after the additions                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, Variant
Rows == 1..N
Threads == 1..T
VARIABLES pat, len, start, cnt, col, pc, todo, tmp
vars == <<pat, len, start, cnt, col, pc, todo, tmp>>
Per == (N + T - 1) \div T
RowsOf(t) == {i \in Rows : i > (t - 1) * Per /\ i <= t * Per}
Row(i) == {c \in Rows : <<i, c>> \in pat}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Missing(t) == {e \in pat : e[1] \in RowsOf(t) /\ <<e[2], e[1]>> \notin pat}
Init ==
  /\ pat \in SUBSET (Rows \X Rows)
  /\ len = [i \in Rows |-> 99] /\ start = [i \in Rows |-> 0] /\ cnt = [i \in Rows |-> 99]
  /\ col = [i \in Rows |-> [k \in 0..(N - 1) |-> 0]]
  /\ pc = [t \in Threads |-> "len"] /\ todo = [t \in Threads |-> {}] /\ tmp = [t \in Threads |-> <<0, 0, 0>>]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
BarAfter(t, b, wait, next) == Goto(t, IF Variant = b THEN next ELSE wait)
After(l) == CASE l = "wb1" -> "count" [] l = "wb2" -> "sum" [] l = "ws" -> "copy" [] l = "wb3" -> "add" [] l = "wb4" -> "sort"
Waits == {"wb1", "wb2", "ws", "wb3", "wb4"}
Release == /\ \E l \in Waits : \A t \in Threads : pc[t] = l
           /\ pc' = [t \in Threads |-> After(pc[t])] /\ UNCHANGED <<pat, len, start, cnt, col, todo, tmp>>
Lengths(t) ==
  /\ pc[t] = "len" /\ BarAfter(t, "b1", "wb1", "count")
  /\ len' = [i \in Rows |-> IF i \in RowsOf(t) THEN Cardinality(Row(i)) ELSE len[i]]
  /\ todo' = [todo EXCEPT ![t] = Missing(t)]
  /\ UNCHANGED <<pat, start, cnt, col, tmp>>
CountOne(t) ==
  /\ pc[t] = "count"
  /\ IF todo[t] = {} THEN BarAfter(t, "b2", "wb2", "sum") /\ UNCHANGED <<len, todo, tmp>>
     ELSE \E e \in todo[t] :
       /\ todo' = [todo EXCEPT ![t] = @ \ {e}]
       /\ IF Variant = "plain" THEN Goto(t, "count2") /\ tmp' = [tmp EXCEPT ![t] = <<e[2], len[e[2]], 0>>] /\ UNCHANGED len
          ELSE len' = [len EXCEPT ![e[2]] = @ + 1] /\ UNCHANGED <<pc, tmp>>
  /\ UNCHANGED <<pat, start, cnt, col>>
CountTwo(t) == /\ pc[t] = "count2" /\ len' = [len EXCEPT ![tmp[t][1]] = tmp[t][2] + 1] /\ Goto(t, "count")
               /\ UNCHANGED <<pat, start, cnt, col, todo, tmp>>
(* the first thread to come sums up *)
Sum(t) ==
  /\ pc[t] = "sum"
  /\ start' = IF \A u \in Threads : pc[u] # "ws" THEN [i \in Rows |-> LET f[k \in 0..N] == IF k = 0 THEN 0 ELSE f[k - 1] + len[k] IN f[i - 1]] ELSE start
  /\ Goto(t, "ws") /\ UNCHANGED <<pat, len, cnt, col, todo, tmp>>
Copy(t) ==
  /\ pc[t] = "copy"
  /\ cnt' = [i \in Rows |-> IF i \in RowsOf(t) THEN Cardinality(Row(i)) ELSE cnt[i]]
  /\ col' = [i \in Rows |-> IF i \in RowsOf(t) THEN [k \in 0..(N - 1) |-> IF k < Cardinality(Row(i)) THEN SetSeq(Row(i))[k + 1] ELSE col[i][k]] ELSE col[i]]
  /\ todo' = [todo EXCEPT ![t] = Missing(t)]
  /\ BarAfter(t, "b3", "wb3", "add") /\ UNCHANGED <<pat, len, start, tmp>>
AddOne(t) ==
  /\ pc[t] = "add"
  /\ IF todo[t] = {} THEN BarAfter(t, "b4", "wb4", "sort") /\ UNCHANGED <<cnt, todo, tmp>>
     ELSE \E e \in todo[t] :
       /\ todo' = [todo EXCEPT ![t] = @ \ {e}]
       /\ tmp' = [tmp EXCEPT ![t] = <<e[2], cnt[e[2]], e[1]>>]
       /\ cnt' = IF Variant = "slot" THEN cnt ELSE [cnt EXCEPT ![e[2]] = @ + 1]
       /\ Goto(t, IF Variant = "slot" THEN "add1" ELSE "add2")
  /\ UNCHANGED <<pat, len, start, col>>
AddSlot(t) == /\ pc[t] = "add1" /\ cnt' = [cnt EXCEPT ![tmp[t][1]] = tmp[t][2] + 1] /\ Goto(t, "add2") /\ UNCHANGED <<pat, len, start, col, todo, tmp>>
AddTwo(t) ==
  /\ pc[t] = "add2" /\ col' = (IF tmp[t][2] \in 0..(N - 1) THEN [col EXCEPT ![tmp[t][1]][tmp[t][2]] = tmp[t][3]] ELSE col)
  /\ Goto(t, "add") /\ UNCHANGED <<pat, len, start, cnt, todo, tmp>>
Sort(t) ==
  /\ pc[t] = "sort"
  /\ col' = [i \in Rows |-> IF i \in RowsOf(t) THEN LET s == SetSeq({col[i][k] : k \in {k \in 0..(N - 1) : k < cnt[i]}}) IN [k \in 0..(N - 1) |-> IF k < Len(s) THEN s[k + 1] ELSE 0] ELSE col[i]]
  /\ Goto(t, "done") /\ UNCHANGED <<pat, len, start, cnt, todo, tmp>>
Finished == \A t \in Threads : pc[t] = "done"
Next == \/ Release \/ (\E t \in Threads : \/ Lengths(t) \/ CountOne(t) \/ CountTwo(t) \/ Sum(t) \/ Copy(t) \/ AddOne(t) \/ AddSlot(t) \/ AddTwo(t) \/ Sort(t))
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sym(i) == Row(i) \cup {j \in Rows : <<j, i>> \in pat}
(* a slot is inside its row, and no slot is given out twice *)
SlotOk == \A t \in Threads : pc[t] = "add2" => tmp[t][2] < len[tmp[t][1]]
EndOk == Finished => \A i \in Rows :
  /\ len[i] = Cardinality(Sym(i)) /\ cnt[i] = len[i]
  /\ start[i] = LET f[k \in 0..N] == IF k = 0 THEN 0 ELSE f[k - 1] + Cardinality(Sym(k)) IN f[i - 1]
  /\ \A k \in 0..(N - 1) : col[i][k] = IF k < len[i] THEN SetSeq(Sym(i))[k + 1] ELSE 0
Ends == <>Finished
=============================================================================
