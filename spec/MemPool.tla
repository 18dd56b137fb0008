------------------------------- MODULE MemPool -------------------------------
(* The memory pool of MemoryPool.hpp as a state machine: a circular buffer   *)
(* with a live range from head to tail (P26).  A block is                    *)
(*   [id, o, n, b, e]: its number, offset and rounded size, and the offsets  *)
(* the pool reported around it, at which a client may later release.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(size) == [size |-> size, h |-> 0, t |-> 0, live |-> <<>>, next |-> 1, ok |-> TRUE, res |-> -1]
Up(n, a) == ((n + a - 1) \div a) * a
Wrapped(s) == s.t < s.h
(* preconditions: the request fits in the free part *)
FitsBack(s, n) == IF Wrapped(s) THEN s.t + n < s.h ELSE s.t + n < s.size \/ n < s.h
Down(n, a) == (n \div a) * a
FitsFront(s, n, a) == IF Wrapped(s) THEN s.h > s.t + n ELSE s.h >= n \/ (s.size >= n /\ Down(s.size - n, a) > s.t)
Back(s, n) ==
  LET wrap == ~Wrapped(s) /\ s.t + n >= s.size
      o == IF wrap THEN 0 ELSE s.t
  IN [s EXCEPT !.t = o + n, !.next = @ + 1, !.res = o,
               !.live = Append(@, [id |-> s.next, o |-> o, n |-> n, b |-> s.t, e |-> o + n])]
Front(s, n, a) ==
  LET o == IF ~Wrapped(s) /\ s.h < n THEN Down(s.size - n, a) ELSE s.h - n
  IN [s EXCEPT !.h = o, !.next = @ + 1, !.res = o,
               !.live = <<[id |-> s.next, o |-> o, n |-> n, b |-> o, e |-> s.h]>> \o @]
(* moving the head over the first k blocks, or the tail over the last k: the offset is one the   *)
(* pool reported next to a block, on either side of the boundary                                 *)
HeadOffs(s, k) == (IF k > 0 THEN {s.live[k].e} ELSE {s.h}) \cup (IF k < Len(s.live) THEN {s.live[k + 1].b} ELSE {s.t})
TailOffs(s, k) == LET j == Len(s.live) - k IN (IF j > 0 THEN {s.live[j].e} ELSE {s.h}) \cup (IF k > 0 THEN {s.live[j + 1].b} ELSE {s.t})
SetHead(s, k, off) == [s EXCEPT !.h = off, !.live = SubSeq(@, k + 1, Len(@)), !.res = -1]
SetTail(s, k, off) == [s EXCEPT !.t = off, !.live = SubSeq(@, 1, Len(@) - k), !.res = -1]
Clear(s) == [s EXCEPT !.h = 0, !.t = 0, !.live = <<>>, !.res = -1]
Resize(s, size) == [Fresh(size) EXCEPT !.next = s.next]
(* one operation: <<name, a, b>> *)
Apply(s, op, align) ==
  CASE op[1] = "back" -> Back(s, Up(op[2], align))
    [] op[1] = "front" -> Front(s, Up(op[2], align), align)
    [] op[1] = "head" -> SetHead(s, op[3], op[2])
    [] op[1] = "tail" -> SetTail(s, op[3], op[2])
    [] op[1] = "clear" -> Clear(s)
    [] op[1] = "init" -> Resize(s, op[2])
Allowed(s, op, align) ==
  CASE op[1] = "back" -> FitsBack(s, Up(op[2], align))
    [] op[1] = "front" -> FitsFront(s, Up(op[2], align), align)
    [] op[1] = "head" -> op[3] <= Len(s.live) /\ op[2] \in HeadOffs(s, op[3]) /\ op[2] < s.size
    [] op[1] = "tail" -> op[3] <= Len(s.live) /\ op[2] \in TailOffs(s, op[3]) /\ op[2] < s.size
    [] OTHER -> TRUE
InRange(s, o) == IF Wrapped(s) THEN o >= s.h \/ o < s.t ELSE o >= s.h /\ o < s.t
(* what every state guarantees *)
Bytes(b) == b.o..(b.o + b.n - 1)
BlocksInside(s) == \A i \in 1..Len(s.live) : s.live[i].o >= 0 /\ s.live[i].o + s.live[i].n <= s.size
BlocksDisjoint(s) == \A i, j \in 1..Len(s.live) : i # j => Bytes(s.live[i]) \cap Bytes(s.live[j]) = {}
BlocksCovered(s) == \A i \in 1..Len(s.live) : \A o \in Bytes(s.live[i]) : InRange(s, o)
Aligned(s, align) == \A i \in 1..Len(s.live) : s.live[i].o % align = 0
=============================================================================
