----------------------------- MODULE MatrixStore -----------------------------
(* The matrix objects a program holds, and the public operations on them, as *)
(* a state machine.  `store` maps the names of live objects to their content *)
(* (raw arrays, see Sparse).  Every action says which object changes and how;*)
(* all other objects keep their content (no aliasing, no side effects).      *)
EXTENDS Sparse, Naturals

VARIABLE store

Live == DOMAIN store
Put(s, d, v) == [x \in (DOMAIN s) \cup {d} |-> IF x = d THEN v ELSE s[x]]
Drop(s, d) == [x \in (DOMAIN s) \ {d} |-> s[x]]

(* Unchanged(S, T): objects of S have the same content in T (slots of the    *)
(* diagonal arrays of rows without diagonal entry are unspecified).          *)
Kept(s, t, ex) == \A x \in (DOMAIN s) \ ex : x \in DOMAIN t /\ SameMatrix(s[x], t[x])

(* Each operation as a relation between the store before (s) and after (t).  *)
New(s, t, d) == DOMAIN t = DOMAIN s \cup {d} /\ Kept(s, t, {d}) /\ WellFormed(t[d])
Transpose(s, t, x, d) ==
  DOMAIN t = DOMAIN s \cup {d} /\ Kept(s, t, {d}) /\ IsTranspose(s[x], t[d])
Permute(s, t, x, d, cp, rip, sort) ==
  DOMAIN t = DOMAIN s \cup {d} /\ Kept(s, t, {d}) /\ IsPermuted(s[x], t[d], cp, rip, sort)
PermuteRows(s, t, x, d, rip) ==
  DOMAIN t = DOMAIN s \cup {d} /\ Kept(s, t, {d}) /\ IsRowPermuted(s[x], t[d], rip)
PermuteCols(s, t, x, cp) ==
  DOMAIN t = DOMAIN s /\ Kept(s, t, {x}) /\ IsColPermuted(s[x], t[x], cp)
SwitchBase(s, t, x, b) ==
  DOMAIN t = DOMAIN s /\ Kept(s, t, {x}) /\ WellFormed(t[x]) /\ SameMatrix(t[x], Rebased(s[x], b))
Copy(s, t, x, d) ==
  DOMAIN t = DOMAIN s \cup {d} /\ Kept(s, t, {d}) /\ SameMatrix(s[x], t[d])
Delete(s, t, x) == DOMAIN t = DOMAIN s \ {x} /\ Kept(s, t, {x})
Poke(s, t, x, pos, v) ==
  DOMAIN t = DOMAIN s /\ Kept(s, t, {x}) /\ SameMatrix([s[x] EXCEPT !.va[pos + 1] = v], t[x])
Split(s, t, x, l, u) ==
  DOMAIN t = DOMAIN s \cup {l, u} /\ Kept(s, t, {l, u}) /\ IsSplit(s[x], t[l], t[u])
Query(s, t) == DOMAIN t = DOMAIN s /\ Kept(s, t, {})
FillDiag(s, t, x, inv) ==
  /\ DOMAIN t = DOMAIN s /\ Kept(s, t, {x}) /\ WellFormed(t[x])
  /\ t[x].hasDp /\ (inv => t[x].hasId)
  /\ DiagPtrsOk(t[x]) /\ DiagValsOk(t[x])
  /\ SameMatrix([t[x] EXCEPT !.hasDp = s[x].hasDp, !.dp = s[x].dp, !.hasId = s[x].hasId, !.id = s[x].id,
                             !.hasDg = s[x].hasDg, !.dg = s[x].dg], s[x])

(* What one recorded step (op name, arguments, resulting store) must satisfy *)
StepOk(s, e, t) ==
  LET a == e.a IN
  CASE e.op = "new"         -> New(s, t, a.dst)
    [] e.op = "transpose"   -> Transpose(s, t, a.src, a.dst)
    [] e.op = "permute"     -> Permute(s, t, a.src, a.dst, a.cp, a.rip, a.sort)
    [] e.op = "permuteRows" -> PermuteRows(s, t, a.src, a.dst, a.rip)
    [] e.op = "permuteRowptr" -> Query(s, t) /\ IsRowptrPermuted(s[a.src], a)
    [] e.op = "permuteCols" -> PermuteCols(s, t, a.src, a.cp)
    [] e.op = "base"        -> SwitchBase(s, t, a.src, a.base)
    [] e.op = "copy"        -> Copy(s, t, a.src, a.dst)
    [] e.op = "delete"      -> Delete(s, t, a.src)
    [] e.op = "poke"        -> Poke(s, t, a.src, a.pos, a.v)
    [] e.op = "split"       -> Split(s, t, a.src, a.l, a.u)
    [] e.op = "sympat"      -> Query(s, t) /\ IsSymPattern(s[a.src], a)
    [] e.op = "pred"        -> Query(s, t) /\ PredOk(s[a.src], a)
    [] e.op = "equals"      -> Query(s, t) /\ a.r = Equal(s[a.src], s[a.dst]) /\ a.r2 = a.r /\ a.r3 = a.r
    [] e.op = "diagptr"     -> FillDiag(s, t, a.src, FALSE)
    [] e.op = "invdiag"     -> FillDiag(s, t, a.src, TRUE)
    [] e.op = "end"         -> DOMAIN t = {} /\ a.leak = 0     \* all memory has been given back
    [] e.op = "nop"         -> Query(s, t)
    [] OTHER -> FALSE
=============================================================================
