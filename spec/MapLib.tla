------------------------------- MODULE MapLib -------------------------------
(* Maps as sequences of <<key, value>> in ascending key order.                                                 *)
EXTENDS Integers, Sequences
Has(q, k) == \E i \in 1..Len(q) : q[i][1] = k
At(q, k) == q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2]
Put(q, k, v) == SelectSeq(q, LAMBDA p : p[1] < k) \o <<<<k, v>>>> \o SelectSeq(q, LAMBDA p : p[1] > k)
Drop(q, k) == SelectSeq(q, LAMBDA p : p[1] # k)
Outside(q, lo, hi) == SelectSeq(q, LAMBDA p : p[1] < lo \/ p[1] > hi)
(* keys lo..lo+n-1 set to their distance from lo (mod 7) plus v; dropped *)
PutRun(q, lo, n, v) == SelectSeq(q, LAMBDA p : p[1] < lo) \o [j \in 1..n |-> <<lo + j - 1, v + ((j - 1) % 7)>>]
                       \o SelectSeq(q, LAMBDA p : p[1] >= lo + n)
DropRun(q, lo, n) == Outside(q, lo, lo + n - 1)
KeysOf(q) == [i \in 1..Len(q) |-> q[i][1]]
ValsOf(q) == [i \in 1..Len(q) |-> q[i][2]]
Above(q, k) == SelectSeq(q, LAMBDA p : p[1] > k)
Ordered(q) == \A i \in 1..(Len(q) - 1) : q[i][1] < q[i + 1][1]
=============================================================================
