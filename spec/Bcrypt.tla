------------------------------- MODULE Bcrypt --------------------------------
(* Symbolic specification of bcryptx.  A password is <<id, length, variant>>: the first length bytes of text id  *)
(* with one byte varied: 1 the last, 2-4 a line feed, carriage return or blank as the last, 5 a blank as the     *)
(* first, 6 the first in the other case, 7 the middle one; the empty one is <<0, 0, 0>>.                         *)
EXTENDS Integers, Sequences
CONSTANTS BIds, BLens, BHeld, BGolden
Start == [start |-> TRUE]
Err == [k |-> "err"]
Ok == [k |-> "ok"]
Out(s, r) == {[st |-> s, r |-> r]}
Pw(i, n, v) == IF n = 0 THEN <<0, 0, 0>> ELSE <<i, n, v>>
Golden == [pw |-> <<1, 20, 0>>, bad |-> FALSE]
Words == {Pw(i, n, v) : i \in BIds, n \in BLens, v \in {0, 1}}
Kinds == {"empty", "cut", "prefix", "version", "cost", "costtext", "digest", "salt", "random", "lead"}
Ops(s) ==
  IF s = Start THEN {[op |-> "new"]}
  ELSE (IF Len(s.h) < BHeld
        THEN {[op |-> "enc", p |-> p] : p \in Words}
             \cup {[op |-> "golden"] : g \in BGolden}
             \cup {[op |-> "spoil", i |-> i, kind |-> k, n |-> n] : i \in 1..Len(s.h), k \in Kinds, n \in {0}}
        ELSE {})
       \cup {[op |-> "dec", i |-> i, p |-> p] : i \in 1..Len(s.h), p \in Words}
Add(s, e) == [s EXCEPT !.h = Append(@, e)]
Do(s, o) ==
  CASE o.op = "new" -> Out([h |-> <<>>], Ok)
    [] o.op = "enc" -> IF o.p[2] > 72 THEN Out(s, Err) ELSE Out(Add(s, [pw |-> o.p, bad |-> FALSE]), Ok)
    [] o.op = "golden" -> Out(Add(s, Golden), Ok)
    [] o.op = "spoil" -> Out(Add(s, [s.h[o.i] EXCEPT !.bad = TRUE]), Ok)
    [] o.op = "dec" -> Out(s, IF s.h[o.i].pw = o.p /\ ~s.h[o.i].bad THEN Ok ELSE Err)
=============================================================================
