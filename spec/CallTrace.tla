------------------------------ MODULE CallTrace ------------------------------
(* Recorded calls, one per line: input and observed output of one public     *)
(* operation, each checked against the relation its specification gives.     *)
EXTENDS GaussSeidel, Graphs, Vectors, Files, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Init == l = 1
Ev == Trace[l]
Ok ==
  CASE Ev.op = "solve" -> SolveOk(Ev.in, Ev.out)
    [] Ev.op = "comp" -> ComponentsOk(Ev.in, Ev.out)
    [] Ev.op = "bfs" -> BfsOk(Ev.in, Ev.out)
    [] Ev.op = "rcm" -> RcmOk(Ev.in, Ev.out)
    [] Ev.op = "bip" -> BipOk(Ev.in, Ev.out)
    [] Ev.op = "reorder" -> ReorderOk(Ev.in, Ev.out)
    [] Ev.op = "isperm" -> IsPermCallOk(Ev.in, Ev.out)
    [] Ev.op = "coo" -> CooOk(Ev.in, Ev.out)
    [] Ev.op = "mv" -> MvOk(Ev.in, Ev.out)
    [] Ev.op = "mdm" -> MdmOk(Ev.in, Ev.out)
    [] Ev.op = "part" -> PartOk(Ev.in, Ev.out, Ev.T)
    [] Ev.op = "prefix" -> PrefixOk(Ev.in, Ev.out, Ev.T)
    [] Ev.op = "mem" -> MemOk(Ev.in, Ev.out)
    [] Ev.op = "bigmem" -> BigMemOk(Ev.in, Ev.out)
    [] Ev.op = "stencil" -> StencilOk(Ev.in, Ev.out)
    [] Ev.op = "load" -> LoadOk(Ev.in, Ev.out)
    [] Ev.op = "vec" -> VecOk(Ev.in, Ev.out)
    [] Ev.op = "crd" -> CrdOk(Ev.in, Ev.out)
    [] Ev.op = "bin" -> BinOk(Ev.in, Ev.out)
    [] Ev.op = "store" -> StoreOk(Ev.in, Ev.out)
    [] Ev.op = "mmio" -> MmioOk(Ev.in, Ev.out)
    [] OTHER -> FALSE
Reject(why) == PrintT(<<"REJ", l, 1, why>>)
Step ==
  /\ l <= Len(Trace)
  /\ IF Ev.st # "ok" THEN Reject(Ev.st) ELSE IF Ok THEN TRUE ELSE Reject(Ev.op)
  /\ l' = l + 1
Next == Step
Spec == Init /\ [][Next]_vars
Consumed == TLCSet(1, l)
TraceAccepted == /\ PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
