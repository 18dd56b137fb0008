----------------------------- MODULE PrefixSums -----------------------------
(* prefixSum and prefixSumMultiple (PrefixSum.cpp), called Rounds times in a *)
(* row with the same workspace and total.  Each call: store the own count,   *)
(* barrier, one thread sums up, barrier, read the own offset, barrier.       *)
(* Drop is the barrier left out: 0 is the design; 1, 2, 3 must be refuted.   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Rounds, Drop, Vals
Threads == 1..T
VARIABLES val,      \* val[r][t]: the count thread t brings in round r
          ws, sum, rd, pc, off, tot
vars == <<val, ws, sum, rd, pc, off, tot>>
Init ==
  /\ val \in [1..Rounds -> [Threads -> Vals]]
  /\ ws = [k \in 0..T |-> 99] /\ sum = 99
  /\ rd = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "put"]
  /\ off = [t \in Threads |-> 0] /\ tot = [t \in Threads |-> 0]
Set(f, t, v) == [f EXCEPT ![t] = v]
(* on to the barrier b before label l, or past it *)
To(t, b, l) == pc' = Set(pc, t, IF Drop = b THEN l ELSE CASE b = 1 -> "b1" [] b = 2 -> "b2" [] b = 3 -> "b3")
After(l) == CASE l = "b1" -> "sum" [] l = "b2" -> "get" [] l = "b3" -> "use"
Release == /\ \A t \in Threads : pc[t] \in {"b1", "b2", "b3"}
           /\ pc' = [t \in Threads |-> After(pc[t])] /\ UNCHANGED <<val, ws, sum, rd, off, tot>>
Put(t) == pc[t] = "put" /\ ws' = [ws EXCEPT ![t] = val[rd[t]][t]] /\ To(t, 1, "sum") /\ UNCHANGED <<val, sum, rd, off, tot>>
Sum(t) ==
  /\ pc[t] = "sum" /\ To(t, 2, "get")
  /\ IF t = 1 THEN /\ ws' = [k \in 0..T |-> LET f[j \in 0..T] == IF j = 0 THEN 0 ELSE f[j - 1] + ws[j] IN f[k]]
                   /\ sum' = LET f[j \in 0..T] == IF j = 0 THEN 0 ELSE f[j - 1] + ws[j] IN f[T]
     ELSE UNCHANGED <<ws, sum>>
  /\ UNCHANGED <<val, rd, off, tot>>
Get(t) == pc[t] = "get" /\ off' = Set(off, t, ws[t - 1]) /\ To(t, 3, "use") /\ UNCHANGED <<val, ws, sum, rd, tot>>
(* the caller reads the total any time before its next call *)
Use(t) == pc[t] = "use" /\ tot' = Set(tot, t, sum) /\ pc' = Set(pc, t, "end") /\ UNCHANGED <<val, ws, sum, rd, off>>
Again(t) == pc[t] = "end" /\ rd[t] < Rounds /\ rd' = Set(rd, t, rd[t] + 1) /\ pc' = Set(pc, t, "put") /\ UNCHANGED <<val, ws, sum, off, tot>>
Finished == \A t \in Threads : pc[t] = "end" /\ rd[t] = Rounds
Next == Release \/ (\E t \in Threads : Put(t) \/ Sum(t) \/ Get(t) \/ Use(t) \/ Again(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
UpTo(r, t) == LET f[j \in 0..T] == IF j = 0 THEN 0 ELSE f[j - 1] + val[r][j] IN f[t]
Ok == \A t \in Threads : pc[t] = "end" => off[t] = UpTo(rd[t], t - 1) /\ tot[t] = UpTo(rd[t], T)
Ends == <>Finished
=============================================================================
