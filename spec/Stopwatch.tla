----------------------------- MODULE Stopwatch ------------------------------
(* Stopwatches on one clock.  Moments and durations are <<days, seconds, nanoseconds>>, normalised, so that    *)
(* they are exact; moments count from the start of the clock, those of "custom" from the Unix epoch.           *)
EXTENDS Integers, Sequences
CONSTANTS WPass, WMax, WCustom
Start == [start |-> TRUE]
Norm(d, s, n) == LET s1 == s + n \div 1000000000 IN <<d + s1 \div 86400, s1 % 86400, n % 1000000000>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
Never == <<>>
Out(s, r) == {[st |-> s, r |-> r]}
Amount(k) == CASE k = 0 -> <<0, 0, 0>> [] k = 1 -> <<0, 0, 1>> [] k = 2 -> <<0, 1, 999999999>> [] k = 3 -> <<1, 86399, 5>> [] k = 4 -> <<40000, 7, 0>>
Given(k) == CASE k = 0 -> <<0, 0, 0>> [] k = 1 -> <<0, 0 - 1, 0 - 1>> [] k = 2 -> <<719162, 86399, 999999999>> [] k = 3 -> <<0 - 1, 3, 2000000001>> [] k = 4 -> <<24855, 11647, 1500000000>>
Ops(s) ==
  IF s = Start THEN {[op |-> "clock"]}
  ELSE (IF Len(s.w) < WMax THEN {[op |-> "new"]} ELSE {})
       \cup {[op |-> n, i |-> i] : n \in {"start", "end", "diff", "getstart", "getend"}, i \in {j \in 1..Len(s.w) : TRUE}}
       \cup {[op |-> "pass", d |-> Amount(k)] : k \in IF s.left = 0 THEN {} ELSE WPass}
       \cup {[op |-> "now"]}
       \cup {[op |-> "custom", d |-> Given(k)] : k \in WCustom}
(* a reading of something that never happened is left open: the operation is not tried *)
Open(s, o) == o.op \in {"diff", "getstart", "getend"} /\
              ((o.op # "getend" /\ s.w[o.i].a = Never) \/ (o.op # "getstart" /\ s.w[o.i].b = Never))
Do(s, o) ==
  CASE o.op = "clock" -> Out([now |-> <<0, 0, 0>>, left |-> 3, w |-> <<>>], <<>>)
    [] o.op = "new" -> Out([s EXCEPT !.w = Append(@, [a |-> Never, b |-> Never])], <<>>)
    [] o.op = "pass" -> Out([s EXCEPT !.now = Plus(@, o.d), !.left = IF @ = 0 THEN 0 ELSE @ - 1], <<>>)
    [] o.op = "start" -> Out([s EXCEPT !.w[o.i].a = s.now], <<>>)
    [] o.op = "end" -> Out([s EXCEPT !.w[o.i].b = s.now], <<>>)
    [] Open(s, o) -> {}
    [] o.op = "diff" -> Out(s, Minus(s.w[o.i].b, s.w[o.i].a))
    [] o.op = "getstart" -> Out(s, s.w[o.i].a)
    [] o.op = "getend" -> Out(s, s.w[o.i].b)
    [] o.op = "now" -> Out(s, s.now)
    [] o.op = "custom" -> Out(s, Norm(o.d[1], o.d[2], o.d[3]))
=============================================================================
