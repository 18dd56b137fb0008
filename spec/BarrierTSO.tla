----------------------------- MODULE BarrierTSO -----------------------------
(* synk::Barrier on a machine with store buffers: every plain store goes     *)
(* into the storing thread's buffer and reaches memory later; a thread sees  *)
(* its own buffered stores; a locked instruction waits for its buffer to     *)
(* drain.  Beyond "nobody leaves early" this decides what clients rely on:   *)
(* what a thread stored before a wait is seen by everybody after it.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NumCores, PerCore,
          Ordered,      \* TRUE: buffers drain in order (x86); FALSE: any store may overtake
          Cap,          \* stores a buffer can hold
          Locked        \* TRUE: counting down at start-up is a locked instruction

Cores == 0..NumCores - 1
Ths   == 0..NumCores * PerCore - 1
CoreOf(t) == t \div PerCore
Slot(t)   == t % PerCore
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)
LgCores == IF Lg(NumCores) = 0 THEN 1 ELSE Lg(NumCores)
Rounds == 0..LgCores - 1

Loc == {<<"ts", t>> : t \in Ths} \cup {<<"cs", c>> : c \in Cores} \cup {<<"fl", c, p, r>> : c \in Cores, p \in 0..1, r \in Rounds}
       \cup {<<"made", c>> : c \in Cores} \cup {<<"linked", c>> : c \in Cores} \cup {<<"wait", 0>>, <<"state", 0>>} \cup {<<"data", t>> : t \in Ths}

VARIABLES mem, buf,      \* memory; per thread: stores not yet in memory, oldest first
          pc, i,         \* per thread
          par, sense,    \* per core, touched by its leader only
          ep             \* waits begun, modulo 4
vars == <<mem, buf, pc, i, par, sense, ep>>

Init ==
  /\ mem = [x \in Loc |-> IF x[1] \in {"ts", "cs"} THEN 1 ELSE IF x[1] = "wait" THEN Cardinality(Ths) ELSE 0]
  /\ buf = [t \in Ths |-> <<>>]
  /\ pc = [t \in Ths |-> IF Slot(t) = 0 THEN "setup" ELSE "dec1"] /\ i = [t \in Ths |-> 0]
  /\ par = [c \in Cores |-> 0] /\ sense = [c \in Cores |-> 1]
  /\ ep = [t \in Ths |-> 0]

Goto(t, q) == pc' = [pc EXCEPT ![t] = q]
\* what thread t reads: its newest buffered store, else memory
Val(t, x) == LET own == {k \in 1..Len(buf[t]) : buf[t][k][1] = x} IN
  IF own = {} THEN mem[x] ELSE buf[t][CHOOSE k \in own : \A j \in own : j <= k][2]
Put(t, x, v) == Len(buf[t]) < Cap /\ buf' = [buf EXCEPT ![t] = Append(@, <<x, v>>)] /\ mem' = mem
Empty(t) == buf[t] = <<>>
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Drain(t) == \E k \in 1..Len(buf[t]) :
  /\ IF Ordered THEN k = 1 ELSE \A j \in 1..k - 1 : buf[t][j][1] # buf[t][k][1]
  /\ mem' = [mem EXCEPT ![buf[t][k][1]] = buf[t][k][2]] /\ buf' = [buf EXCEPT ![t] = Without(@, k)]
  /\ UNCHANGED <<pc, i, par, sense, ep>>

Keep == UNCHANGED <<i, par, sense, ep>>
Quiet == UNCHANGED <<mem, buf>>
Setup(t) == pc[t] = "setup" /\ Put(t, <<"made", CoreOf(t)>>, 1) /\ Goto(t, "dec1") /\ Keep
Dec(t, here, set, spin) == pc[t] = here /\ Goto(t, IF Val(t, <<"wait", 0>>) = 1 THEN set ELSE spin) /\ Keep
  /\ IF Locked THEN Empty(t) /\ mem' = [mem EXCEPT ![<<"wait", 0>>] = @ - 1] /\ UNCHANGED buf
     ELSE mem' = [mem EXCEPT ![<<"wait", 0>>] = @ - 1] /\ UNCHANGED buf
Reset(t, here, nxt) == pc[t] = here /\ Put(t, <<"wait", 0>>, Cardinality(Ths)) /\ Goto(t, nxt) /\ Keep
SetState(t, here, v, nxt) == pc[t] = here /\ Put(t, <<"state", 0>>, v) /\ Goto(t, nxt) /\ Keep
Spin(t, here, v, nxt) == pc[t] = here /\ Val(t, <<"state", 0>>) # v /\ Goto(t, nxt) /\ Keep /\ Quiet
AfterOne(t) == IF Slot(t) = 0 THEN "link" ELSE "dec2"
Link(t) == pc[t] = "link" /\ Put(t, <<"linked", CoreOf(t)>>, 1) /\ Goto(t, "dec2") /\ Keep

\* the client stores something and waits
Enter(t) == pc[t] = "idle" /\ ep' = [ep EXCEPT ![t] = (@ + 1) % 4] /\ Put(t, <<"data", t>>, (ep[t] + 1) % 4) /\ Goto(t, "arrive") /\ UNCHANGED <<i, par, sense>>
Arrive(t) == pc[t] = "arrive" /\ Put(t, <<"ts", t>>, 1 - Val(t, <<"ts", t>>)) /\ i' = [i EXCEPT ![t] = 1] /\ UNCHANGED <<par, sense, ep>>
  /\ Goto(t, IF Slot(t) # 0 THEN "waitcore" ELSE IF PerCore > 1 THEN "gather" ELSE IF NumCores > 1 THEN "round" ELSE "wake")
Gather(t) == LET c == CoreOf(t) IN pc[t] = "gather" /\ Val(t, <<"ts", c * PerCore + i[t]>>) # Val(t, <<"cs", c>>)
  /\ i' = [i EXCEPT ![t] = @ + 1] /\ Goto(t, IF i[t] + 1 < PerCore THEN "gather" ELSE IF NumCores > 1 THEN "round" ELSE "wake") /\ UNCHANGED <<par, sense, ep>> /\ Quiet
Round(t) == pc[t] = "round" /\ i' = [i EXCEPT ![t] = 0] /\ Goto(t, "send") /\ UNCHANGED <<par, sense, ep>> /\ Quiet
Send(t) == LET c == CoreOf(t)  d == (c + 2 ^ i[t]) % NumCores IN
  pc[t] = "send" /\ Put(t, <<"fl", d, par[c], i[t]>>, sense[c]) /\ Goto(t, "recv") /\ Keep
Recv(t) == LET c == CoreOf(t)  last == i[t] = LgCores - 1 IN
  /\ pc[t] = "recv" /\ Val(t, <<"fl", c, par[c], i[t]>>) = sense[c] /\ i' = [i EXCEPT ![t] = @ + 1]
  /\ sense' = (IF last /\ par[c] = 1 THEN [sense EXCEPT ![c] = 1 - @] ELSE sense)
  /\ par' = (IF last THEN [par EXCEPT ![c] = 1 - @] ELSE par)
  /\ Goto(t, IF last THEN "wake" ELSE "send") /\ UNCHANGED ep /\ Quiet
Wake(t) == pc[t] = "wake" /\ Put(t, <<"cs", CoreOf(t)>>, Val(t, <<"ts", t>>)) /\ Goto(t, "ret") /\ Keep
WaitCore(t) == pc[t] = "waitcore" /\ Val(t, <<"cs", CoreOf(t)>>) = Val(t, <<"ts", t>>) /\ Goto(t, "ret") /\ Keep /\ Quiet
Leave(t) == pc[t] = "ret" /\ i' = [i EXCEPT ![t] = 0] /\ Goto(t, "idle") /\ UNCHANGED <<par, sense, ep>> /\ Quiet

Step(t) ==
  \/ Setup(t) \/ Dec(t, "dec1", "reset1", "spin1") \/ Reset(t, "reset1", "set1") \/ SetState(t, "set1", 1, AfterOne(t))
  \/ Spin(t, "spin1", 0, AfterOne(t)) \/ Link(t)
  \/ Dec(t, "dec2", "reset2", "spin2") \/ Reset(t, "reset2", "set2") \/ SetState(t, "set2", 2, "idle") \/ Spin(t, "spin2", 1, "idle")
  \/ Enter(t) \/ Arrive(t) \/ Gather(t) \/ Round(t) \/ Send(t) \/ Recv(t) \/ Wake(t) \/ WaitCore(t) \/ Leave(t)
Next == \E t \in Ths : Step(t) \/ Drain(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Ths : WF_vars(Step(t)) /\ WF_vars(Drain(t))

Initialising == {"setup", "dec1", "reset1", "set1", "spin1", "link", "dec2", "reset2", "set2", "spin2"}
Near(a, b) == (a - b + 4) % 4 \in {0, 1}
Safe == \A t \in Ths : pc[t] = "ret" => \A u \in Ths : Near(ep[u], ep[t]) /\ pc[u] \notin Initialising
\* what everybody stored before this wait is visible to whoever returns from it
Visible == \A t \in Ths : pc[t] = "ret" => \A u \in Ths : Near(Val(t, <<"data", u>>), ep[t])
Ready ==
  /\ \A t \in Ths : pc[t] \in {"link", "dec2", "reset2", "set2", "spin2"} => \A c \in Cores : Val(t, <<"made", c>>) = 1
  /\ \A t \in Ths : pc[t] \notin Initialising => \A c \in Cores : Val(t, <<"linked", c>>) = 1
Live == \A t \in Ths : []<>(pc[t] = "ret")
=============================================================================
