------------------------------- MODULE Stack --------------------------------
(* Linked stack (kind 0) and slice stack (kind 1, which also has IsEmpty).  PushN pushes v, v+1, ... ; PopN    *)
(* pops n times or until the stack is empty; Bounce pushes and pops n values in turn.                          *)
EXTENDS Integers, Sequences
CONSTANTS SVals, SMax
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}
Top(s) == s.q[Len(s.q)]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Min(a, b) == IF a < b THEN a ELSE b
Ops(s) ==
  IF s = Start THEN {[op |-> "new", kind |-> k] : k \in {0, 1}}
  ELSE {[op |-> "Push", v |-> v] : v \in IF Len(s.q) >= SMax THEN {} ELSE SVals}
       \cup {[op |-> n] : n \in {"Pop", "Peek", "Len"} \cup (IF s.kind = 1 THEN {"IsEmpty"} ELSE {})}
Do(s, o) ==
  CASE o.op = "new" -> Out([kind |-> o.kind, q |-> <<>>], TRUE)
    [] o.op = "Push" -> Out([s EXCEPT !.q = Append(@, o.v)], TRUE)
    [] o.op = "Pop" -> IF s.q = <<>> THEN Out(s, <<>>) ELSE Out([s EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)], <<Top(s)>>)
    [] o.op = "PushN" -> Out([s EXCEPT !.q = @ \o [i \in 1..o.n |-> o.v + i - 1]], TRUE)
    [] o.op = "PopN" -> LET k == Min(o.n, Len(s.q)) IN Out([s EXCEPT !.q = SubSeq(@, 1, Len(@) - k)], Rev(SubSeq(s.q, Len(s.q) - k + 1, Len(s.q))))
    [] o.op = "Bounce" -> Out(s, TRUE)
    [] o.op = "Peek" -> Out(s, IF s.q = <<>> THEN <<>> ELSE <<Top(s)>>)
    [] o.op = "IsEmpty" -> Out(s, s.q = <<>>)
    [] o.op = "Len" -> Out(s, Len(s.q))
=============================================================================
