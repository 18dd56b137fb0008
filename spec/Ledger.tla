------------------------------- MODULE Ledger -------------------------------
(* Who holds memory (P30).  A client runs operations one after the other; an *)
(* operation takes blocks for its own use and for the object it will hand    *)
(* over, and ends by handing the object over, or by refusing its input.  Its *)
(* own blocks, and on refusal the object's too, are given back before that;  *)
(* an object's blocks go back when the client destroys it.  Blocks carved    *)
(* from a memory pool are the pool's and are not counted.                    *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxOwn, MaxObj, MaxHandles,
          ForgetOnRefusal, ForgetOnReturn   \* the two ways of going wrong
VARIABLES st, own, obj, handles, held
vars == <<st, own, obj, handles, held>>
Init == st = "idle" /\ own = 0 /\ obj = 0 /\ handles = [i \in 1..MaxHandles |-> 0] /\ held = 0
Begin == st = "idle" /\ st' = "busy" /\ own' = 0 /\ obj' = 0 /\ UNCHANGED <<handles, held>>
TakeOwn == st = "busy" /\ own < MaxOwn /\ own' = own + 1 /\ held' = held + 1 /\ UNCHANGED <<st, obj, handles>>
TakeObj == st = "busy" /\ obj < MaxObj /\ obj' = obj + 1 /\ held' = held + 1 /\ UNCHANGED <<st, own, handles>>
GiveOwn == st = "busy" /\ own > 0 /\ own' = own - 1 /\ held' = held - 1 /\ UNCHANGED <<st, obj, handles>>
HandOver == /\ st = "busy" /\ (ForgetOnReturn \/ own = 0) /\ st' = "idle" /\ own' = 0 /\ obj' = 0 /\ UNCHANGED held
            /\ \E i \in 1..MaxHandles : handles[i] = 0 /\ handles' = [handles EXCEPT ![i] = obj]
Refuse == /\ st = "busy" /\ st' = "idle" /\ UNCHANGED handles /\ own' = 0 /\ obj' = 0
          /\ held' = IF ForgetOnRefusal THEN held - own ELSE held - own - obj
Destroy == st = "idle" /\ \E i \in 1..MaxHandles : handles[i] > 0 /\ handles' = [handles EXCEPT ![i] = 0] /\ held' = held - handles[i] /\ UNCHANGED <<st, own, obj>>
Next == Begin \/ TakeOwn \/ TakeObj \/ GiveOwn \/ HandOver \/ Refuse \/ Destroy
Spec == Init /\ [][Next]_vars
Sum == LET F[i \in 0..MaxHandles] == IF i = 0 THEN 0 ELSE F[i - 1] + handles[i] IN F[MaxHandles]
Accounted == held = own + obj + Sum
Quiescent == st = "idle" /\ \A i \in 1..MaxHandles : handles[i] = 0
AllGivenBack == Quiescent => held = 0
(* one whole session of a client that destroys what it was handed *)
Session(taken) == held' = held + taken
=============================================================================
