------------------------------- MODULE Queue --------------------------------
(* Linked queue (cap = 0: unbounded) and ring queue (cap > 0).                                                 *)
(* EnqN enqueues v, v+1, ... and counts how many were taken; DeqN dequeues n times or until the queue is       *)
(* empty; Rot dequeues and enqueues the same value n times.                                                    *)
EXTENDS Integers, Sequences
CONSTANTS QVals, QCaps, QMax
None == <<>>
Some(v) == <<v>>
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}
Min(a, b) == IF a < b THEN a ELSE b
Room(s) == s.cap = 0 \/ Len(s.q) < s.cap
Ops(s) ==
  IF s = Start THEN {[op |-> "new", cap |-> c] : c \in QCaps}
  ELSE {[op |-> "Enqueue", v |-> v] : v \in IF s.cap = 0 /\ Len(s.q) >= QMax THEN {} ELSE QVals}
       \cup {[op |-> n] : n \in {"Dequeue", "Peek", "IsEmpty"}}
       \cup (IF s.cap > 0 THEN {[op |-> n] : n \in {"IsFull", "Cap"} \cup (IF s.q # <<>> THEN {"Head"} ELSE {})} ELSE {})
Do(s, o) ==
  CASE o.op = "new" -> Out([cap |-> o.cap, q |-> <<>>], TRUE)
    [] o.op = "Enqueue" -> IF Room(s) THEN Out([s EXCEPT !.q = Append(@, o.v)], TRUE) ELSE Out(s, FALSE)
    [] o.op = "Dequeue" -> IF s.q = <<>> THEN Out(s, None) ELSE Out([s EXCEPT !.q = Tail(@)], Some(Head(s.q)))
    [] o.op = "EnqN" -> LET k == IF s.cap = 0 THEN o.n ELSE Min(o.n, s.cap - Len(s.q))
                        IN Out([s EXCEPT !.q = @ \o [i \in 1..k |-> o.v + i - 1]], k)
    [] o.op = "DeqN" -> LET k == Min(o.n, Len(s.q)) IN Out([s EXCEPT !.q = SubSeq(@, k + 1, Len(@))], SubSeq(s.q, 1, k))
    [] o.op = "Rot" -> IF s.q = <<>> THEN Out(s, TRUE)
                       ELSE LET k == o.n % Len(s.q) IN Out([s EXCEPT !.q = SubSeq(@, k + 1, Len(@)) \o SubSeq(@, 1, k)], TRUE)
    [] o.op = "Peek" -> Out(s, IF s.q = <<>> THEN None ELSE Some(Head(s.q)))
    [] o.op = "Head" -> Out(s, Head(s.q))
    [] o.op = "IsEmpty" -> Out(s, s.q = <<>>)
    [] o.op = "IsFull" -> Out(s, ~Room(s))
    [] o.op = "Cap" -> Out(s, s.cap)
=============================================================================
