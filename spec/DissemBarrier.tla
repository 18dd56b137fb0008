--------------------------- MODULE DissemBarrier ---------------------------
(* The algorithm of synk::Barrier, one action per shared-memory access:      *)
(* two-phase initialisation, sense reversal inside a core, dissemination     *)
(* across cores with flags double-buffered by parity.  The number of         *)
(* episodes is unbounded: episode counters are kept modulo 4, which is       *)
(* faithful as long as Safe holds (threads are at most one episode apart).   *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS NumCores, PerCore,
          Parities      \* 2 in the code; 1 shows why double buffering is needed

Cores == 0..NumCores - 1
Ths   == 0..NumCores * PerCore - 1
CoreOf(t) == t \div PerCore
Slot(t)   == t % PerCore
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)
LgCores == IF Lg(NumCores) = 0 THEN 1 ELSE Lg(NumCores)
Rounds == 0..LgCores - 1

VARIABLES pc, i,                   \* per thread
          ts, cs, fl, par, sense,  \* per core: thread senses, core sense, flags, parity, sense
          made, linked,            \* core structure allocated / linked to partners
          waiting, state,          \* threadsWaiting, initState
          ep                       \* waits begun by each thread, modulo 4
vars == <<pc, i, ts, cs, fl, par, sense, made, linked, waiting, state, ep>>

Init ==
  /\ pc = [t \in Ths |-> IF Slot(t) = 0 THEN "setup" ELSE "dec1"] /\ i = [t \in Ths |-> 0]
  /\ ts = [t \in Ths |-> 1] /\ cs = [c \in Cores |-> 1]
  /\ fl = [c \in Cores |-> [p \in 0..1 |-> [r \in Rounds |-> 0]]]
  /\ par = [c \in Cores |-> 0] /\ sense = [c \in Cores |-> 1]
  /\ made = [c \in Cores |-> FALSE] /\ linked = [c \in Cores |-> FALSE]
  /\ waiting = Cardinality(Ths) /\ state = 0
  /\ ep = [t \in Ths |-> 0]

Goto(t, q) == pc' = [pc EXCEPT ![t] = q]

Setup(t) == pc[t] = "setup" /\ made' = [made EXCEPT ![CoreOf(t)] = TRUE] /\ Goto(t, "dec1")
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, linked, waiting, state, ep>>
Dec(t, here, set, spin) == pc[t] = here /\ waiting' = waiting - 1
            /\ Goto(t, IF waiting = 1 THEN set ELSE spin)
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, linked, state, ep>>
Reset(t, here, nxt) == pc[t] = here /\ waiting' = Cardinality(Ths) /\ Goto(t, nxt)
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, linked, state, ep>>
SetState(t, here, v, nxt) == pc[t] = here /\ state' = v /\ Goto(t, nxt)
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, linked, waiting, ep>>
Spin(t, here, v, nxt) == pc[t] = here /\ state # v /\ Goto(t, nxt)
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, linked, waiting, state, ep>>
AfterOne(t) == IF Slot(t) = 0 THEN "link" ELSE "dec2"
Link(t) == pc[t] = "link" /\ linked' = [linked EXCEPT ![CoreOf(t)] = TRUE] /\ Goto(t, "dec2")
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, waiting, state, ep>>

Enter(t) == pc[t] = "idle" /\ ep' = [ep EXCEPT ![t] = (@ + 1) % 4] /\ Goto(t, "arrive")
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, linked, waiting, state>>
Arrive(t) == pc[t] = "arrive" /\ ts' = [ts EXCEPT ![t] = 1 - @]
            /\ i' = [i EXCEPT ![t] = 1]
            /\ Goto(t, IF Slot(t) # 0 THEN "waitcore" ELSE IF PerCore > 1 THEN "gather" ELSE IF NumCores > 1 THEN "round" ELSE "wake")
            /\ UNCHANGED <<cs, fl, par, sense, made, linked, waiting, state, ep>>
Gather(t) == LET c == CoreOf(t) IN
            pc[t] = "gather" /\ ts[c * PerCore + i[t]] # cs[c]
            /\ i' = [i EXCEPT ![t] = @ + 1]
            /\ Goto(t, IF i[t] + 1 < PerCore THEN "gather" ELSE IF NumCores > 1 THEN "round" ELSE "wake")
            /\ UNCHANGED <<ts, cs, fl, par, sense, made, linked, waiting, state, ep>>
Round(t) == pc[t] = "round" /\ i' = [i EXCEPT ![t] = 0] /\ Goto(t, "send")
            /\ UNCHANGED <<ts, cs, fl, par, sense, made, linked, waiting, state, ep>>
Send(t) == LET c == CoreOf(t)  d == (c + 2 ^ i[t]) % NumCores IN
            pc[t] = "send" /\ fl' = [fl EXCEPT ![d][par[c]][i[t]] = sense[c]] /\ Goto(t, "recv")
            /\ UNCHANGED <<i, ts, cs, par, sense, made, linked, waiting, state, ep>>
Recv(t) == LET c == CoreOf(t)  last == i[t] = LgCores - 1 IN
            pc[t] = "recv" /\ fl[c][par[c]][i[t]] = sense[c]
            /\ i' = [i EXCEPT ![t] = @ + 1]
            /\ sense' = (IF last /\ par[c] = Parities - 1 THEN [sense EXCEPT ![c] = 1 - @] ELSE sense)
            /\ par' = (IF last THEN [par EXCEPT ![c] = (@ + 1) % Parities] ELSE par)
            /\ Goto(t, IF last THEN "wake" ELSE "send")
            /\ UNCHANGED <<ts, cs, fl, made, linked, waiting, state, ep>>
Wake(t) == LET c == CoreOf(t) IN
            pc[t] = "wake" /\ cs' = [cs EXCEPT ![c] = ts[t]] /\ Goto(t, "ret")
            /\ UNCHANGED <<i, ts, fl, par, sense, made, linked, waiting, state, ep>>
WaitCore(t) == pc[t] = "waitcore" /\ cs[CoreOf(t)] = ts[t] /\ Goto(t, "ret")
            /\ UNCHANGED <<i, ts, cs, fl, par, sense, made, linked, waiting, state, ep>>
Leave(t) == pc[t] = "ret" /\ i' = [i EXCEPT ![t] = 0] /\ Goto(t, "idle")
            /\ UNCHANGED <<ts, cs, fl, par, sense, made, linked, waiting, state, ep>>

Step(t) ==
  \/ Setup(t) \/ Dec(t, "dec1", "reset1", "spin1") \/ Reset(t, "reset1", "set1") \/ SetState(t, "set1", 1, AfterOne(t))
  \/ Spin(t, "spin1", 0, AfterOne(t)) \/ Link(t)
  \/ Dec(t, "dec2", "reset2", "spin2") \/ Reset(t, "reset2", "set2") \/ SetState(t, "set2", 2, "idle") \/ Spin(t, "spin2", 1, "idle")
  \/ Enter(t) \/ Arrive(t) \/ Gather(t) \/ Round(t) \/ Send(t) \/ Recv(t) \/ Wake(t) \/ WaitCore(t) \/ Leave(t)
Next == \E t \in Ths : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Ths : WF_vars(Step(t))

Initialising == {"setup", "dec1", "reset1", "set1", "spin1", "link", "dec2", "reset2", "set2", "spin2"}
(* P01: whoever is about to return sees everybody at least in this episode.  *)
Safe == \A t \in Ths : pc[t] = "ret" => \A u \in Ths : (ep[u] - ep[t] + 4) % 4 \in {0, 1} /\ pc[u] \notin Initialising
(* P02: the structures a thread touches exist when it touches them.          *)
Ready ==
  /\ \A t \in Ths : pc[t] \in {"link", "dec2", "reset2", "set2", "spin2"} => \A c \in Cores : made[c]
  /\ \A t \in Ths : pc[t] \notin Initialising => \A c \in Cores : linked[c]
(* P02: every wait returns, for ever. *)
Live == \A t \in Ths : []<>(pc[t] = "ret")
=============================================================================
