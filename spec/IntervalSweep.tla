---------------------------- MODULE IntervalSweep ----------------------------
(* The sweep of timex/intersectionx (Marzullo's algorithm as in RFC 5905) gives what Interval.tla defines: for *)
(* the fewest false ones, the extreme points covered by all others, if the centres outside are no more.        *)
EXTENDS Interval, TLC
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Ends(l) == SortSeq([j \in 1..3 * Len(l) |-> LET i == l[((j - 1) \div 3) + 1] IN
                      CASE j % 3 = 1 -> <<Lo(i), -1>> [] j % 3 = 2 -> <<i[1], 0>> [] OTHER -> <<Hi(i), 1>>], Less)
(* from one side: the place where need ends (of sign s) have been met, and the centres met before *)
RECURSIVE Scan(_, _, _, _, _, _)
Scan(e, i, s, end, mid, need) ==
  IF i > Len(e) THEN [at |-> 0, mid |-> mid]
  ELSE LET n == end + s * e[i][2] IN
       IF n >= need THEN [at |-> e[i][1], mid |-> mid]
       ELSE Scan(e, i + 1, s, n, IF e[i][2] = 0 THEN mid + 1 ELSE mid, need)
Back(e) == [i \in 1..Len(e) |-> e[Len(e) + 1 - i]]
RECURSIVE Try(_, _, _, _, _)
Try(e, m, f, lo0, hi0) ==
  IF 2 * f >= m THEN <<>>
  ELSE LET a == Scan(e, 1, -1, 0, 0, m - f)
           b == Scan(Back(e), 1, 1, 0, 0, m - f)
       IN IF a.at <= b.at /\ a.mid + b.mid <= f THEN <<a.at, b.at>> ELSE Try(e, m, f + 1, a.at, b.at)
Sweep(l) == IF Len(l) = 1 THEN <<Lo(l[1]), Hi(l[1])>> ELSE Try(Ends(l), Len(l), 0, 0, 0)

VARIABLE l
Grow == Len(l) < ILen /\ \E a \in IOffs, b \in IBands : l' = Append(l, <<a, b>>)
Spec == l = <<>> /\ [][Grow]_l
Same == Sweep(l) = Res(l)
=============================================================================
