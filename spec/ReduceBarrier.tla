--------------------------- MODULE ReduceBarrier ---------------------------
(* The algorithm of synk::ReduceBarrier (after initialisation), one action   *)
(* per shared-memory access.  Cores beyond NumCores up to the next power of  *)
(* two are pseudo-cores, played by thread 1 of a core (or by its only        *)
(* thread).  A value is the set of contributions <<thread, episode>> folded  *)
(* into it; folding a contribution in twice yields Dup.  Episodes are        *)
(* counted modulo 4 (threads are at most one apart, see Safe).               *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NumCores, PerCore,
          Buffers,      \* copies of the value mail-boxes: 2 (by parity); 1 was a defect
          SelfFold      \* TRUE: a lone core exchanges with itself (was a defect)

Cores == 0..NumCores - 1
Ths   == 0..NumCores * PerCore - 1
CoreOf(t) == t \div PerCore
Slot(t)   == t % PerCore
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)
LgCores == IF Lg(NumCores) = 0 THEN 1 ELSE Lg(NumCores)
Pow2 == 2 ^ Lg(NumCores)
Rounds == 0..LgCores - 1
Nodes == 0..Pow2 - 1               \* cores and pseudo-cores
HasPseudo(c) == c + NumCores < Pow2
Dup == {<<"dup">>}
Join(a, b) == IF a = Dup \/ b = Dup \/ a \cap b # {} THEN Dup ELSE a \cup b

VARIABLES pc, i, red, zero,        \* per thread: location, index, its running folds
          ts, cs, tv, rv,          \* thread senses and values, core sense and result
          fl, box, par, sense,     \* per node
          ep, got
vars == <<pc, i, red, zero, ts, cs, tv, rv, fl, box, par, sense, ep, got>>

Init ==
  /\ pc = [t \in Ths |-> "idle"] /\ i = [t \in Ths |-> 0]
  /\ red = [t \in Ths |-> {}] /\ zero = [t \in Ths |-> {}]
  /\ ts = [t \in Ths |-> 1] /\ cs = [c \in Cores |-> 1]
  /\ tv = [t \in Ths |-> {}] /\ rv = [c \in Cores |-> {}]
  /\ fl = [n \in Nodes |-> [p \in 0..1 |-> [r \in Rounds |-> 0]]]
  /\ box = [n \in Nodes |-> [p \in 0..Buffers - 1 |-> [r \in Rounds |-> {}]]]
  /\ par = [n \in Nodes |-> 0] /\ sense = [n \in Nodes |-> 1]
  /\ ep = [t \in Ths |-> 0] /\ got = [t \in Ths |-> {}]

Goto(t, q) == pc' = [pc EXCEPT ![t] = q]
B(n) == par[n] % Buffers
Me(t) == CoreOf(t)                       \* the node a core's thread 0 plays
Ps(t) == CoreOf(t) + NumCores            \* its pseudo node
Partner(n, r) == (n + 2 ^ r) % Pow2
Exchange == NumCores > 1 \/ SelfFold
First(t) == IF PerCore = 1 /\ HasPseudo(CoreOf(t)) THEN "sendBoth" ELSE "putv"
Flip(n, last) ==
  /\ sense' = (IF last /\ par[n] = 1 THEN [sense EXCEPT ![n] = 1 - @] ELSE sense)
  /\ par' = (IF last THEN [par EXCEPT ![n] = 1 - @] ELSE par)

Enter(t) == /\ pc[t] = "idle" /\ ep' = [ep EXCEPT ![t] = (@ + 1) % 4]
            /\ red' = [red EXCEPT ![t] = {<<t, (ep[t] + 1) % 4>>}] /\ zero' = [zero EXCEPT ![t] = {}]
            /\ tv' = [tv EXCEPT ![t] = {<<t, (ep[t] + 1) % 4>>}]
            /\ Goto(t, "arrive") /\ UNCHANGED <<i, ts, cs, rv, fl, box, par, sense, got>>
Arrive(t) == /\ pc[t] = "arrive" /\ ts' = [ts EXCEPT ![t] = 1 - @]
            /\ i' = [i EXCEPT ![t] = IF Slot(t) = 0 /\ PerCore > 1 THEN 1 ELSE 0]
            /\ Goto(t, IF Slot(t) = 0 THEN (IF PerCore > 1 THEN "gather" ELSE IF Exchange THEN First(t) ELSE "store")
                       ELSE IF Slot(t) = 1 /\ HasPseudo(CoreOf(t)) THEN "pputv" ELSE "waitcore")
            /\ UNCHANGED <<red, zero, cs, tv, rv, fl, box, par, sense, ep, got>>
Gather(t) == LET c == CoreOf(t)  u == c * PerCore + i[t]  more == i[t] + 1 < PerCore IN
            /\ pc[t] = "gather" /\ ts[u] # cs[c]
            /\ red' = [red EXCEPT ![t] = Join(@, tv[u])]
            /\ i' = [i EXCEPT ![t] = IF more THEN @ + 1 ELSE 0]
            /\ Goto(t, IF more THEN "gather" ELSE IF Exchange THEN First(t) ELSE "store")
            /\ UNCHANGED <<zero, ts, cs, tv, rv, fl, box, par, sense, ep, got>>
(* one exchange step of the node played by thread t: value, then flag, then wait and fold *)
PutVal(t, here, n, v, nxt) ==
            /\ pc[t] = here /\ box' = [box EXCEPT ![Partner(n, i[t])][B(n)][i[t]] = v] /\ Goto(t, nxt)
            /\ UNCHANGED <<i, red, zero, ts, cs, tv, rv, fl, par, sense, ep, got>>
PutFlag(t, here, n, nxt) ==
            /\ pc[t] = here /\ fl' = [fl EXCEPT ![Partner(n, i[t])][par[n]][i[t]] = sense[n]] /\ Goto(t, nxt)
            /\ UNCHANGED <<i, red, zero, ts, cs, tv, rv, box, par, sense, ep, got>>
Await(t, here, n, nxt) ==
            /\ pc[t] = here /\ fl[n][par[n]][i[t]] = sense[n] /\ Goto(t, nxt)
            /\ UNCHANGED <<i, red, zero, ts, cs, tv, rv, fl, box, par, sense, ep, got>>
TakeMe(t, here, nxtSame, nxtDone) == LET n == Me(t)  last == i[t] = LgCores - 1 IN
            /\ pc[t] = here /\ red' = [red EXCEPT ![t] = Join(@, box[n][B(n)][i[t]])]
            /\ i' = [i EXCEPT ![t] = IF last THEN 0 ELSE @ + 1] /\ Flip(n, last)
            /\ Goto(t, IF last THEN nxtDone ELSE nxtSame)
            /\ UNCHANGED <<zero, ts, cs, tv, rv, fl, box, ep, got>>
(* a lone thread playing both its core and the pseudo-core *)
TakeBoth1(t) == LET n == Me(t) IN
            /\ pc[t] = "takeBoth1" /\ red' = [red EXCEPT ![t] = Join(@, box[n][B(n)][i[t]])] /\ Goto(t, "takeBoth2")
            /\ UNCHANGED <<i, zero, ts, cs, tv, rv, fl, box, par, sense, ep, got>>
TakeBoth2(t) == LET n == Me(t)  q == Ps(t)  last == i[t] = LgCores - 1 IN
            /\ pc[t] = "takeBoth2" /\ zero' = [zero EXCEPT ![t] = Join(@, box[q][B(q)][i[t]])]
            /\ i' = [i EXCEPT ![t] = IF last THEN 0 ELSE @ + 1]
            /\ sense' = (IF last THEN [k \in Nodes |-> IF k \in {n, q} /\ par[k] = 1 THEN 1 - sense[k] ELSE sense[k]] ELSE sense)
            /\ par' = (IF last THEN [k \in Nodes |-> IF k \in {n, q} THEN 1 - par[k] ELSE par[k]] ELSE par)
            /\ Goto(t, IF last THEN "store" ELSE "sendBoth")
            /\ UNCHANGED <<red, ts, cs, tv, rv, fl, box, ep, got>>
TakePs(t) == LET q == Ps(t)  last == i[t] = LgCores - 1 IN
            /\ pc[t] = "ptake" /\ zero' = [zero EXCEPT ![t] = Join(@, box[q][B(q)][i[t]])]
            /\ i' = [i EXCEPT ![t] = IF last THEN 0 ELSE @ + 1] /\ Flip(q, last)
            /\ Goto(t, IF last THEN "waitcore" ELSE "pputv")
            /\ UNCHANGED <<red, ts, cs, tv, rv, fl, box, ep, got>>
Store(t) == /\ pc[t] = "store" /\ rv' = [rv EXCEPT ![CoreOf(t)] = red[t]] /\ Goto(t, "wake")
            /\ UNCHANGED <<i, red, zero, ts, cs, tv, fl, box, par, sense, ep, got>>
Wake(t) ==  /\ pc[t] = "wake" /\ cs' = [cs EXCEPT ![CoreOf(t)] = ts[CoreOf(t) * PerCore]] /\ Goto(t, "load")
            /\ UNCHANGED <<i, red, zero, ts, tv, rv, fl, box, par, sense, ep, got>>
WaitCore(t) == /\ pc[t] = "waitcore" /\ cs[CoreOf(t)] = ts[t] /\ Goto(t, "load")
            /\ UNCHANGED <<i, red, zero, ts, cs, tv, rv, fl, box, par, sense, ep, got>>
Load(t) ==  /\ pc[t] = "load" /\ got' = [got EXCEPT ![t] = rv[CoreOf(t)]] /\ Goto(t, "ret")
            /\ UNCHANGED <<i, red, zero, ts, cs, tv, rv, fl, box, par, sense, ep>>
(* local scratch is forgotten on return so that the state space stays finite and small *)
Leave(t) == /\ pc[t] = "ret" /\ Goto(t, "idle") /\ got' = [got EXCEPT ![t] = {}] /\ red' = [red EXCEPT ![t] = {}] /\ zero' = [zero EXCEPT ![t] = {}]
            /\ UNCHANGED <<i, ts, cs, tv, rv, fl, box, par, sense, ep>>

Step(t) ==
  \/ Enter(t) \/ Arrive(t) \/ Gather(t)
  \/ PutVal(t, "putv", Me(t), red[t], "putf") \/ PutFlag(t, "putf", Me(t), "await") \/ Await(t, "await", Me(t), "take") \/ TakeMe(t, "take", "putv", "store")
  \/ PutVal(t, "sendBoth", Me(t), red[t], "sendBoth2") \/ PutVal(t, "sendBoth2", Ps(t), zero[t], "flagBoth1")
  \/ PutFlag(t, "flagBoth1", Me(t), "flagBoth2") \/ PutFlag(t, "flagBoth2", Ps(t), "awaitBoth1")
  \/ Await(t, "awaitBoth1", Me(t), "awaitBoth2") \/ Await(t, "awaitBoth2", Ps(t), "takeBoth1") \/ TakeBoth1(t) \/ TakeBoth2(t)
  \/ PutVal(t, "pputv", Ps(t), zero[t], "pputf") \/ PutFlag(t, "pputf", Ps(t), "pawait") \/ Await(t, "pawait", Ps(t), "ptake") \/ TakePs(t)
  \/ Store(t) \/ Wake(t) \/ WaitCore(t) \/ Load(t) \/ Leave(t)
Next == \E t \in Ths : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Ths : WF_vars(Step(t))

Safe == \A t \in Ths : pc[t] = "ret" => \A u \in Ths : (ep[u] - ep[t] + 4) % 4 \in {0, 1}
(* P03: everyone returns the fold of exactly this episode's contributions. *)
Right == \A t \in Ths : pc[t] = "ret" => got[t] = {<<u, ep[t]>> : u \in Ths}
Live == \A t \in Ths : []<>(pc[t] = "ret")
=============================================================================
