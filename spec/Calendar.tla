------------------------------ MODULE Calendar ------------------------------
(* Truncation of UTC times.  A time is <<d, s>>: days since 1970-01-01 and seconds of that day.                *)
EXTENDS Integers, Sequences
CONSTANTS CDays, CSecs, CNs
Start == [start |-> TRUE]
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
(* Days from the start of year 1 to the start of year y. *)
Before(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
Epoch == Before(1970)
YearStart(y) == Before(y) - Epoch
MLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* 400 years have 146097 days, always. *)
Year(d) == LET n == d + Epoch
               c == n \div 146097
               k == n % 146097
               e == k \div 366
           IN (400 * c) + (CHOOSE y \in (e + 1)..(e + 2) : Before(y) <= k /\ k < Before(y + 1))
RECURSIVE MStart(_, _)
MStart(y, m) == IF m = 1 THEN YearStart(y) ELSE MStart(y, m - 1) + MLen(y, m - 1)
Month(d) == LET y == Year(d) IN CHOOSE m \in 1..12 : MStart(y, m) <= d /\ d < MStart(y, m) + MLen(y, m)

(* Seconds of many days do not fit TLC's integers: durations are <<days, seconds>> as well. *)
Norm(a) == IF a[2] >= 86400 THEN <<a[1] + 1, a[2] - 86400>> ELSE IF a[2] < 0 THEN <<a[1] - 1, a[2] + 86400>> ELSE a
Plus(a, b) == Norm(<<a[1] + b[1], a[2] + b[2]>>)
Sub(a, b) == Norm(<<a[1] - b[1], a[2] - b[2]>>)
LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RECURSIVE ModP(_, _)
ModP(t, n) == IF ~LE(n, t) THEN t ELSE LET r == ModP(t, Plus(n, n)) IN IF LE(n, r) THEN Sub(r, n) ELSE r
Zero == <<0, 0>>
Mod(t, n) == IF LE(Zero, t) THEN ModP(t, n)
             ELSE LET r == ModP(Sub(Zero, t), n) IN IF r = Zero THEN Zero ELSE Sub(n, r)   \* before year 1

Trunc(fn, t) ==
  CASE fn = "Sec" -> t
    [] fn = "Min" -> <<t[1], t[2] - (t[2] % 60)>>
    [] fn = "Hour" -> <<t[1], t[2] - (t[2] % 3600)>>
    [] fn = "Day" -> <<t[1], 0>>
    [] fn = "Week" -> <<t[1] - ((t[1] + 3) % 7), 0>>   \* day 0 was a Thursday
    [] fn = "Month" -> <<MStart(Year(t[1]), Month(t[1])), 0>>
    [] fn = "Year" -> <<YearStart(Year(t[1])), 0>>
(* n is a duration; neg: the argument was not positive. *)
TruncN(t, n, neg) == IF neg THEN t ELSE Sub(t, Mod(Plus(t, <<Epoch, 0>>), n))
Fns == {"Sec", "Min", "Hour", "Day", "Week", "Month", "Year"}
Do(s, o) ==
  CASE o.op = "new" -> {[st |-> [on |-> TRUE], r |-> TRUE]}
    [] o.op = "trunc" -> {[st |-> s, r |-> Trunc(o.fn, o.t)]}
    [] o.op = "truncN" -> {[st |-> s, r |-> TruncN(o.t, o.n, o.neg)]}
Times == {<<d, x>> : d \in CDays, x \in CSecs} \cup {<<-d, x>> : d \in CDays, x \in CSecs}
Ops(s) == IF s = Start THEN {[op |-> "new"]}
          ELSE {[op |-> "trunc", fn |-> f, t |-> t] : f \in Fns, t \in Times}
               \cup {[op |-> "truncN", t |-> t, n |-> Norm(<<x \div 86400, x % 86400>>), neg |-> FALSE] : t \in Times, x \in CNs}
               \cup {[op |-> "truncN", t |-> t, n |-> <<0, x>>, neg |-> TRUE] : t \in Times, x \in {0, 1, 60}}
(* The calendar itself: what the property says of a truncation, checked for every day of the given range.      *)
SamePeriod(fn, a, b) ==
  CASE fn = "Sec" -> a = b
    [] fn = "Min" -> a[1] = b[1] /\ a[2] \div 60 = b[2] \div 60
    [] fn = "Hour" -> a[1] = b[1] /\ a[2] \div 3600 = b[2] \div 3600
    [] fn = "Day" -> a[1] = b[1]
    [] fn = "Week" -> (a[1] + 3) \div 7 = (b[1] + 3) \div 7
    [] fn = "Month" -> Year(a[1]) = Year(b[1]) /\ Month(a[1]) = Month(b[1])
    [] fn = "Year" -> Year(a[1]) = Year(b[1])
Prev(t) == Sub(t, <<0, 1>>)
Good(fn, t) == LET r == Trunc(fn, t) IN
  /\ LE(r, t) /\ SamePeriod(fn, r, t)
  /\ Trunc(fn, r) = r
  /\ (fn = "Sec" \/ ~SamePeriod(fn, r, Prev(r)))
  /\ LE(Trunc(fn, Prev(t)), r)
  /\ (fn \in {"Min", "Hour", "Day", "Week"} =>
      r = TruncN(t, CASE fn = "Min" -> <<0, 60>> [] fn = "Hour" -> <<0, 3600>> [] fn = "Day" -> <<1, 0>> [] OTHER -> <<7, 0>>, FALSE))
=============================================================================
