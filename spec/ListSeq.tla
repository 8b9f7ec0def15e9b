------------------------------ MODULE ListSeq -------------------------------
(* Linked list (kind 0) and slice list (kind 1): one indexable sequence.  Indices count from 0; an index of    *)
(* plus or minus Big stands for the largest and smallest integer.  An Insert outside 0..Len is only defined    *)
(* for the linked list.  Iterate stops at the visit number "stop" (0: never); IterateIn reads the list again   *)
(* from within its visit number "at", by At(i), Len and an inner Iterate that stops at "stop".                 *)
EXTENDS Integers, Sequences
CONSTANTS LVals, LMax
Big == 1000000
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}
Valid(s, i) == 0 <= i /\ i < Len(s.q)
InsertAt(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
RemoveAt(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
Min(a, b) == IF a < b THEN a ELSE b
Idx(s) == (-2..Len(s.q) + 2) \cup {Big, -Big}
Ops(s) ==
  IF s = Start THEN {[op |-> "new", kind |-> k] : k \in {0, 1}}
  ELSE {[op |-> "Len"]}
       \cup {[op |-> "IterateIn", at |-> k, i |-> i, stop |-> j] : k \in 1..Len(s.q), i \in {0, Len(s.q) - 1}, j \in {0, 1}}
       \cup {[op |-> "Iterate", stop |-> k] : k \in 0..Len(s.q)}
       \cup {[op |-> n, i |-> i] : n \in {"Remove", "At"}, i \in Idx(s)}
       \cup (IF Len(s.q) >= LMax THEN {}
             ELSE {[op |-> "Append", v |-> v] : v \in LVals} \cup {[op |-> "Insert", i |-> i, v |-> v] : i \in 0..Len(s.q), v \in LVals})
       \cup (IF s.kind = 1 THEN {} ELSE {[op |-> "Insert", i |-> i, v |-> 1] : i \in {j \in Idx(s) : j < 0 \/ j > Len(s.q)}})
UpTo(q, n) == IF n = 0 \/ n > Len(q) THEN q ELSE SubSeq(q, 1, n)
Do(s, o) ==
  CASE o.op = "new" -> Out([kind |-> o.kind, q |-> <<>>], TRUE)
    [] o.op = "Append" -> Out([s EXCEPT !.q = Append(@, o.v)], TRUE)
    [] o.op = "Insert" -> Out(IF 0 <= o.i /\ o.i <= Len(s.q) THEN [s EXCEPT !.q = InsertAt(@, o.i, o.v)] ELSE s, TRUE)
    [] o.op = "Remove" -> IF Valid(s, o.i) THEN Out([s EXCEPT !.q = RemoveAt(@, o.i)], <<s.q[o.i + 1]>>) ELSE Out(s, <<>>)
    [] o.op = "At" -> Out(s, IF Valid(s, o.i) THEN <<s.q[o.i + 1]>> ELSE <<>>)
    [] o.op = "Iterate" -> Out(s, UpTo(s.q, o.stop))
    [] o.op = "IterateIn" -> Out(s, IF o.at > Len(s.q) THEN <<s.q, <<>>, <<>>, <<>>>>
                                    ELSE <<s.q, IF Valid(s, o.i) THEN <<s.q[o.i + 1]>> ELSE <<>>, <<Len(s.q)>>, UpTo(s.q, o.stop)>>)
    [] o.op = "AppendN" -> Out([s EXCEPT !.q = @ \o [i \in 1..o.n |-> o.v + i - 1]], TRUE)
    [] o.op = "RemoveN" -> \* n times the element at i, while there is one
         LET k == IF Valid(s, o.i) THEN Min(o.n, Len(s.q) - o.i) ELSE 0
         IN Out([s EXCEPT !.q = SubSeq(@, 1, o.i) \o SubSeq(@, o.i + k + 1, Len(@))], SubSeq(s.q, o.i + 1, o.i + k))
    [] o.op = "Len" -> Out(s, Len(s.q))
=============================================================================
