------------------------------ MODULE Interval ------------------------------
(* Clock intersection.  An interval is <<offset, band>>.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS IOffs, IBands, ILen
Start == [start |-> TRUE]
Lo(i) == i[1] - i[2]
Hi(i) == i[1] + i[2]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == -Min({-x : x \in S})
Cover(l, x) == Cardinality({i \in 1..Len(l) : Lo(l[i]) <= x /\ x <= Hi(l[i])})
(* Extreme points covered by at least k intervals: ends of intervals suffice.  c: the ends and their cover. *)
Covers(l) == {<<x, Cover(l, x)>> : x \in {Lo(l[i]) : i \in 1..Len(l)} \cup {Hi(l[i]) : i \in 1..Len(l)}}
Points(c, k) == {e[1] : e \in {d \in c : d[2] >= k}}
Outside(l, a, b) == Cardinality({i \in 1..Len(l) : l[i][1] < a \/ l[i][1] > b})
Works(l, c, f) == LET p == Points(c, Len(l) - f) IN p # {} /\ Outside(l, Min(p), Max(p)) <= f
Res(l) == IF Len(l) = 1 THEN <<Lo(l[1]), Hi(l[1])>>
          ELSE LET c == Covers(l)
                   fs == {f \in 0..Len(l) : 2 * f < Len(l) /\ Works(l, c, f)}
               IN IF fs = {} THEN <<>>
                  ELSE LET p == Points(c, Len(l) - Min(fs)) IN <<Min(p), Max(p)>>
Do(s, o) == IF o.op = "new" THEN {[st |-> [on |-> TRUE], r |-> TRUE]} ELSE {[st |-> s, r |-> Res(o.l)]}
Ops(s) == IF s = Start THEN {[op |-> "new"]}
          ELSE {[op |-> "do", l |-> l] : l \in UNION {[1..n -> {<<a, b>> : a \in IOffs, b \in IBands}] : n \in 0..ILen}}
=============================================================================
