----------------------------- MODULE SortSearch -----------------------------
(* Sorting and searching.  An element is <<key, tag>>; the functions for ordered types see the key, the custom *)
(* ones are given a comparison "by": key ascending, descending or by remainder.  The result of a sort is       *)
(* [key: the keys in their new order, el: the elements in their new order, for a stable sort, and listed in    *)
(* canonical order otherwise, ok: memory around the slice untouched].                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS TKeys, TLen, TSearch
Start == [start |-> TRUE]
Rank(by, k) == CASE by = "asc" -> k [] by = "desc" -> -k [] by = "mod" -> k % 3
Less(by, x, y) == Rank(by, x[1]) < Rank(by, y[1])
(* A set of pairs in ascending order.  TLC lists sets of pairs in this order already, and is told to sort if   *)
(* it should not.                                                                                              *)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
InOrder(S) == LET s == SetToSeq(S) IN IF \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1]) THEN s ELSE SortSeq(s, Before)
(* A stable sort, by the pairs <<rank, position>>. *)
Sorted(q, by) == LET n == Len(q) s == InOrder({<<Rank(by, q[i][1]), i>> : i \in 1..n}) IN [i \in 1..n |-> q[s[i][2]]]
Canon(q) == LET S == {q[i] : i \in 1..Len(q)} IN IF Cardinality(S) = Len(q) THEN InOrder(S) ELSE SortSeq(q, Before)
Keys(q) == [i \in 1..Len(q) |-> q[i][1]]
InSortedOrder(q, by) == \A i \in 1..(Len(q) - 1) : ~Less(by, q[i + 1], q[i])
Order(o) == CASE o.fn \in {"Sort", "SortStable", "IsSorted"} -> IF o.rev THEN "desc" ELSE "asc"
              [] o.fn \in {"SortReverse", "SortStableReverse", "IsSortedReverse"} -> "desc"
              [] OTHER -> o.by
Custom(o) == o.fn \in {"SortCustom", "SortStableCustom", "IsSortedCustom", "SearchCustom"}
Stable(o) == o.fn \in {"SortStable", "SortStableReverse", "SortStableCustom"}
(* First position (from 0) whose element is not less than the target. *)
Place(q, x, by) == IF \E i \in 1..Len(q) : ~Less(by, q[i], x)
                   THEN (CHOOSE i \in 1..Len(q) : ~Less(by, q[i], x) /\ \A j \in 1..(i - 1) : Less(by, q[j], x)) - 1 ELSE Len(q)
Res(o) ==
  CASE o.fn \in {"Sort", "SortReverse", "SortStable", "SortStableReverse", "SortCustom", "SortStableCustom"} ->
         LET t == Sorted(o.q, Order(o))
         IN [key |-> [i \in 1..Len(t) |-> Rank(Order(o), t[i][1])], el |-> IF Stable(o) THEN t ELSE Canon(t), ok |-> TRUE]
    [] o.fn \in {"IsSorted", "IsSortedReverse", "IsSortedCustom"} -> [is |-> InSortedOrder(o.q, Order(o)), el |-> o.q]
    [] o.fn \in {"Search", "SearchCustom"} ->
         LET by == IF o.fn = "Search" THEN "asc" ELSE o.by
             p == Place(o.q, o.x, by)
         IN [at |-> p, found |-> p < Len(o.q) /\ ~Less(by, o.x, o.q[p + 1]), el |-> o.q]
Do(s, o) == IF o.op = "new" THEN {[st |-> [on |-> TRUE], r |-> TRUE]} ELSE {[st |-> s, r |-> Res(o)]}

Seqs == UNION {[1..n -> TKeys] : n \in 0..TLen}
Tag(f) == [i \in 1..Len(f) |-> <<f[i], i>>]
Bys == {"asc", "desc", "mod"}
SortOps == {[op |-> "do", fn |-> n, rev |-> v, kind |-> 0, q |-> Tag(f)] : n \in {"Sort"}, v \in BOOLEAN, f \in Seqs}
           \cup {[op |-> "do", fn |-> n, rev |-> FALSE, kind |-> 0, q |-> Tag(f)] :
                 n \in {"SortReverse", "SortStable", "SortStableReverse", "IsSorted", "IsSortedReverse"}, f \in Seqs}
           \cup {[op |-> "do", fn |-> n, by |-> b, q |-> Tag(f)] : n \in {"SortCustom", "SortStableCustom", "IsSortedCustom"}, b \in Bys, f \in Seqs}
SearchOps == {[op |-> "do", fn |-> "Search", kind |-> 0, x |-> <<x, 0>>, q |-> Sorted(Tag(f), "asc")] : f \in Seqs, x \in TKeys \cup {9}}
             \cup {[op |-> "do", fn |-> "SearchCustom", by |-> b, x |-> <<x, 0>>, q |-> Sorted(Tag(f), b)] : f \in Seqs, x \in TKeys \cup {9}, b \in Bys}
Ops(s) == IF s = Start THEN {[op |-> "new"]} ELSE IF TSearch THEN SearchOps ELSE SortOps
=============================================================================
