---------------------------- MODULE LevelSearch ----------------------------
(* How the threads of the level search (LevelSchedule.cpp, findLevels_) agree *)
(* on the current level while the search switches between levels handled by   *)
(* all threads and runs of small levels handled by thread 1 alone (the others *)
(* wait).  The graph is abstracted to the sizes of its levels; which thread   *)
(* discovers which nodes of a level is left open, and so is the number of     *)
(* entries of a node (one here, so nn counts nodes as qt does, but nn is      *)
(* summed up in place).  Variant = "ok" is the design; the others leave out   *)
(* one ingredient each and must be refuted:                                   *)
(*   "lateend"  publishes the end of the serial run after waking the others   *)
(*   "nowake2"  leaves out the second barrier of the wake-up                  *)
(*   "nojoin"   leaves out the barrier between dividing a level and using it  *)
(*   "nostart"  leaves out the barrier at the start of a level                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, MaxLevels, Sizes, Thresh, Variant
Threads == 1..T
VARIABLES sizes,      \* sizes of the levels
          qt,         \* number of nodes each thread discovered last
          pre,        \* prefix sums of qt
          nn,         \* per thread: entries of the nodes it discovered, summed up in place
          endSync,    \* start of the level at which the others join again
          lev,        \* ends of the levels, as thread 1 records them
          found, done,    \* nodes of the next level discovered so far; threads that have finished the level
          pc, begin, end, prevSerial, cis,
          seen        \* what each thread read when it divided the level
vars == <<sizes, qt, pre, nn, endSync, lev, found, done, pc, begin, end, prevSerial, cis, seen>>
Size(l) == IF l <= Len(sizes) THEN sizes[l] ELSE 0
RECURSIVE Upto(_)
Upto(l) == IF l = 0 THEN 0 ELSE Upto(l - 1) + Size(l)
Sums(f) == [k \in 0..T |-> LET s[j \in 0..T] == IF j = 0 THEN 0 ELSE s[j - 1] + f[j] IN s[k]]
RECURSIVE Total(_, _)
Total(f, k) == IF k = 0 THEN 0 ELSE Total(f, k - 1) + f[k]
Init ==
  /\ sizes \in UNION {[1..k -> Sizes] : k \in 1..MaxLevels}
  /\ qt \in [Threads -> 0..sizes[1]] /\ Total(qt, T) = sizes[1]
  /\ nn = [k \in 0..T |-> IF k = 0 THEN 0 ELSE qt[k]]
  /\ pre = [k \in 0..T |-> 0] /\ endSync = 0 /\ lev = <<>> /\ found = 0 /\ done = 0
  /\ pc = [t \in Threads |-> "top"] /\ begin = [t \in Threads |-> 0] /\ end = [t \in Threads |-> 0]
  /\ prevSerial = [t \in Threads |-> FALSE] /\ cis = [t \in Threads |-> FALSE]
  /\ seen = [t \in Threads |-> <<>>]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(f, t, v) == [f EXCEPT ![t] = v]
(* Barriers: one shared barrier "bar", and the one that ends an OpenMP single. *)
(* A thread at label l waits; when all wait at the same barrier they go on.    *)
BarWaits == {"w1", "w2", "w3", "wake1", "wakeEnd", "wake2w", "join", "idle"}
After(l) == CASE l = "w1" -> "single" [] l = "w2" -> "toSerial" [] l = "w3" -> "work" [] l = "wake1" -> "wake2"
              [] l = "wakeEnd" -> "out" [] l = "wake2w" -> "levels" [] l = "join" -> "levels" [] l = "idle" -> "idleDone"
              [] l = "ws" -> "afterSingle"
Release ==
  /\ \/ \A t \in Threads : pc[t] \in BarWaits
     \/ \A t \in Threads : pc[t] = "ws"
  /\ pc' = [t \in Threads |-> After(pc[t])]
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, begin, end, prevSerial, cis, seen>>
Top(t) ==
  /\ pc[t] = "top"
  /\ begin' = Set(begin, t, end[t]) /\ cis' = Set(cis, t, FALSE)
  /\ Goto(t, IF ~prevSerial[t] THEN (IF Variant = "nostart" THEN "single" ELSE "w1") ELSE IF t = 1 THEN "master" ELSE "follow")
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, end, prevSerial, seen>>
(* ---- thread 1 after a level of a serial run ---- *)
Master(t) ==
  /\ pc[t] = "master"
  /\ IF qt[1] = 0 THEN Goto(t, "wakeEnd") /\ UNCHANGED <<cis, end, endSync>>
     ELSE IF qt[1] < 2 * Thresh THEN cis' = Set(cis, t, TRUE) /\ end' = Set(end, t, begin[t] + qt[1]) /\ Goto(t, "levels") /\ UNCHANGED endSync
     ELSE /\ endSync' = IF Variant = "lateend" THEN endSync ELSE begin[t]
          /\ Goto(t, "wake1") /\ UNCHANGED <<cis, end>>
  /\ UNCHANGED <<sizes, qt, pre, nn, lev, found, done, begin, prevSerial, seen>>
Wake2(t) ==
  /\ pc[t] = "wake2"
  /\ endSync' = begin[t]
  /\ end' = Set(end, t, begin[t] + qt[1]) /\ pre' = [pre EXCEPT ![1] = qt[1]]
  /\ Goto(t, IF Variant = "nowake2" THEN "levels" ELSE "wake2w")
  /\ UNCHANGED <<sizes, qt, nn, lev, found, done, begin, prevSerial, cis, seen>>
(* ---- the other threads, woken up ---- *)
IdleDone(t) ==
  /\ pc[t] = "idleDone"
  /\ IF qt[1] = 0 THEN Goto(t, "out") /\ UNCHANGED prevSerial ELSE Goto(t, "top") /\ prevSerial' = Set(prevSerial, t, TRUE)
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, begin, end, cis, seen>>
Follow(t) ==
  /\ pc[t] = "follow"
  /\ begin' = Set(begin, t, endSync) /\ Goto(t, "follow2")
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, end, prevSerial, cis, seen>>
Follow2(t) ==
  /\ pc[t] = "follow2"
  /\ end' = Set(end, t, begin[t] + qt[1]) /\ pre' = [pre EXCEPT ![t] = qt[1]] /\ nn' = [nn EXCEPT ![t] = nn[1]]
  /\ Goto(t, IF Variant = "nowake2" THEN "levels" ELSE "join")
  /\ UNCHANGED <<sizes, qt, endSync, lev, found, done, begin, prevSerial, cis, seen>>
(* ---- a level after a parallel one: the first thread to come sums up, all wait for it ---- *)
Single(t) ==
  /\ pc[t] = "single"
  /\ IF \A u \in Threads : pc[u] # "ws" THEN pre' = Sums(qt) /\ nn' = Sums(nn) ELSE UNCHANGED <<pre, nn>>
  /\ Goto(t, "ws") /\ UNCHANGED <<sizes, qt, endSync, lev, found, done, begin, end, prevSerial, cis, seen>>
AfterSingle(t) ==
  /\ pc[t] = "afterSingle"
  /\ IF pre[T] = 0 THEN Goto(t, "out") /\ UNCHANGED <<cis, end>>
     ELSE cis' = Set(cis, t, pre[T] < Thresh) /\ end' = Set(end, t, end[t] + pre[T]) /\ Goto(t, "levels")
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, begin, prevSerial, seen>>
(* ---- every thread has the range of the level; thread 1 records it ---- *)
Levels(t) ==
  /\ pc[t] = "levels"
  /\ lev' = IF t = 1 THEN Append(lev, end[t]) ELSE lev
  /\ Goto(t, IF cis[t] THEN (IF prevSerial[t] THEN "serial" ELSE "w2") ELSE "divide")
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, found, done, begin, end, prevSerial, cis, seen>>
ToSerial(t) ==
  /\ pc[t] = "toSerial" /\ Goto(t, IF t = 1 THEN "serial" ELSE "idle")
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, begin, end, prevSerial, cis, seen>>
Serial(t) ==
  /\ pc[t] = "serial"
  /\ qt' = [qt EXCEPT ![1] = Size(Len(lev) + 1)] /\ nn' = [nn EXCEPT ![1] = Size(Len(lev) + 1)]
  /\ prevSerial' = Set(prevSerial, t, TRUE) /\ Goto(t, "top")
  /\ UNCHANGED <<sizes, pre, endSync, lev, found, done, begin, end, cis, seen>>
Divide(t) ==
  /\ pc[t] = "divide" /\ seen' = Set(seen, t, <<pre, nn>>)
  /\ Goto(t, IF Variant = "nojoin" THEN "work" ELSE "w3")
  /\ UNCHANGED <<sizes, qt, pre, nn, endSync, lev, found, done, begin, end, prevSerial, cis>>
Work(t) ==
  /\ pc[t] = "work"
  /\ LET next == Size(Len(lev) + 1) IN
     \E n \in 0..next :
       /\ IF done = T - 1 THEN n = next - found ELSE n <= next - found
       /\ qt' = [qt EXCEPT ![t] = n] /\ nn' = [nn EXCEPT ![t] = n]
       /\ found' = IF done = T - 1 THEN 0 ELSE found + n
       /\ done' = IF done = T - 1 THEN 0 ELSE done + 1
  /\ prevSerial' = Set(prevSerial, t, FALSE) /\ Goto(t, "top")
  /\ UNCHANGED <<sizes, pre, endSync, lev, begin, end, cis, seen>>
Finished == \A t \in Threads : pc[t] = "out"
Next == \/ \E t \in Threads : \/ Top(t) \/ Master(t) \/ Wake2(t) \/ IdleDone(t) \/ Follow(t) \/ Follow2(t) \/ Single(t) \/ AfterSingle(t)
                              \/ Levels(t) \/ ToSerial(t) \/ Serial(t) \/ Divide(t) \/ Work(t)
        \/ Release
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
(* the recorded levels are the levels of the graph *)
LevOk == Len(lev) <= Len(sizes) /\ \A i \in 1..Len(lev) : lev[i] = Upto(i)
(* a thread that expands part of a level divided the level the others divided: all of it, and nothing else *)
PartOk == \A t \in Threads : pc[t] = "work" =>
            /\ end[t] = Upto(Len(lev)) /\ begin[t] = Upto(Len(lev) - 1)
            /\ seen[t][1][T] = Size(Len(lev)) /\ seen[t][2][T] = Size(Len(lev))
            /\ \A u \in Threads : pc[u] = "work" => seen[t] = seen[u]
SerialOk == \A t \in Threads : pc[t] = "serial" => t = 1 /\ end[t] = Upto(Len(lev)) /\ begin[t] = Upto(Len(lev) - 1)
                                                     /\ \A u \in Threads \ {1} : pc[u] \in {"w2", "toSerial", "idle"}
(* the search ends with all levels *)
EndOk == (\E t \in Threads : pc[t] = "out") => Len(lev) = Len(sizes)
Ends == <>Finished
=============================================================================
