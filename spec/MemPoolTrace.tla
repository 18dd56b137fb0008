---------------------------- MODULE MemPoolTrace ----------------------------
(* Replayed histories: after each operation the real pool must be in the     *)
(* state the specification reaches, with every live block intact.            *)
EXTENDS MemPool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, s, base
vars == <<l, k, s, base>>
Ev == Trace[l]
Done == l > Len(Trace)
Ops == Ev.in.ops
Obs == Ev.out.s[k]
Init == l = 1 /\ k = 1 /\ s = Fresh(0) /\ base = 0
Reject(why) == PrintT(<<"REJ", l, k, why>>)
RangeOf(f) == {f[i] : i \in 1..Len(f)}
(* block numbers restart when the pool is initialised again *)
NextS == IF Ops[k][1] = "init" THEN Fresh(Ops[k][2]) ELSE Apply(s, Ops[k], Ev.in.align)
Ok(u) == /\ Obs.r = u.res /\ Obs.h = u.h /\ Obs.t = u.t
         /\ \A i \in 1..Len(u.live) : u.live[i].id \in RangeOf(Obs.ok)
         /\ RangeOf(Obs.in) = {o \in 0..(u.size - 1) : InRange(u, o)}
         /\ BlocksInside(u) /\ BlocksDisjoint(u)
NextCase == l' = l + 1 /\ k' = 1 /\ s' = Fresh(0) /\ UNCHANGED base
Step ==
  /\ ~Done
  /\ IF Ev.st # "ok" THEN Reject(Ev.st) /\ NextCase
     ELSE IF k > Len(Ops) THEN (IF Ev.out.gone THEN TRUE ELSE Reject("finalize")) /\ NextCase
     ELSE IF k > 1 /\ ~Allowed(s, Ops[k], Ev.in.align) THEN Reject("generator") /\ NextCase
     ELSE IF Ok(NextS) THEN s' = NextS /\ k' = k + 1 /\ UNCHANGED <<l, base>>
     ELSE Reject(Ops[k][1]) /\ NextCase
Spec == Init /\ [][Step]_vars
Consumed == TLCSet(1, l)
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
