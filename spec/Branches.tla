------------------------------ MODULE Branches ------------------------------
(* Option, Result and optional parameters.  kind: 0..3 the element types the driver instantiates.              *)
(* Match's result: the calls made (which function, with which argument) and the two values returned.           *)
(* Parameter's result: the argument of each function and of the constructor, and the constructor's result,     *)
(* where a parameter is <<object number, value>> or <<>> for nil.                                              *)
EXTENDS Integers, Sequences
CONSTANTS BKinds, BVals, BHeld, BFuncs
Start == [start |-> TRUE]
Fs == {"nil", "same", "fresh", "change"}
Out(s, r) == {[st |-> s, r |-> r]}
Ops(s) ==
  IF s = Start THEN {[op |-> "new", kind |-> k] : k \in BKinds}
  ELSE (IF Len(s.h) < BHeld THEN {[op |-> "some", v |-> v] : v \in BVals} \cup {[op |-> "ok", v |-> v] : v \in BVals}
                                 \cup {[op |-> "none", v |-> 0]} \cup {[op |-> "err", v |-> v] : v \in BVals} ELSE {})
       \cup {[op |-> "match", i |-> i, a |-> a, b |-> b] : i \in 1..Len(s.h), a \in BVals, b \in {0, 1}}
       \cup (IF Len(s.h) = 0 THEN {[op |-> "param", f |-> f, c |-> c] : f \in UNION {[1..n -> Fs] : n \in 0..BFuncs}, c \in {"nil", "same", "fresh"}} ELSE {})
(* p: the current parameter, n: objects made so far, seen: arguments so far *)
Step(x, f) ==
  LET new == <<x.n + 1, 10 * (x.n + 1)>> IN
  [p |-> CASE f = "nil" -> <<>> [] f = "same" -> x.p [] f = "fresh" -> new
           [] f = "change" -> IF x.p = <<>> THEN <<>> ELSE <<x.p[1], x.p[2] + 1>>,
   n |-> IF f = "fresh" THEN x.n + 1 ELSE x.n,
   seen |-> Append(x.seen, x.p)]
RECURSIVE Fold(_, _)
Fold(x, f) == IF f = <<>> THEN x ELSE Fold(Step(x, f[1]), Tail(f))
Do(s, o) ==
  CASE o.op = "new" -> Out([kind |-> o.kind, h |-> <<>>], TRUE)
    [] o.op \in {"some", "none", "ok", "err"} -> Out([s EXCEPT !.h = Append(@, <<o.op, o.v>>)], TRUE)
    [] o.op = "match" ->
         LET h == s.h[o.i]
             call == CASE h[1] \in {"some", "ok"} -> <<1, h[2]>> [] h[1] = "none" -> <<2>> [] h[1] = "err" -> <<2, h[2]>>
         IN Out(s, [calls |-> <<call>>, ret |-> <<o.a, o.b>>])
    [] o.op = "param" ->
         LET x == Fold([p |-> <<>>, n |-> 0, seen |-> <<>>], o.f)
         IN Out(s, [seen |-> Append(x.seen, x.p), ret |-> CASE o.c = "nil" -> <<>> [] o.c = "same" -> x.p [] o.c = "fresh" -> <<x.n + 1, 10 * (x.n + 1)>>])
=============================================================================
