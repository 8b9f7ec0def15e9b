------------------------------- MODULE OrdMap -------------------------------
(* Ordered map.  Range visits keys in ascending order; its callback performs the actions of "script" listed    *)
(* for its visit number ("at") and stops at visit number "stop" (0: never).  A key present from the beginning  *)
(* is visited, one set meanwhile may be (if it lies ahead), one deleted is not; each visit shows the current   *)
(* value.  A visit's result is <<key, value, results of its actions>>.                                         *)
EXTENDS MapLib
CONSTANTS OKinds, OKeys, OVals, OScripts
NoKey == -1000000
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}

Act(q, a) ==
  CASE a.op = "Set" -> [q |-> Put(q, a.k, a.v), r |-> <<>>]
    [] a.op = "Del" -> [q |-> Drop(q, a.k), r |-> <<>>]
    [] a.op = "Clear" -> [q |-> <<>>, r |-> <<>>]
    [] a.op = "Get" -> [q |-> q, r |-> IF Has(q, a.k) THEN <<At(q, a.k)>> ELSE <<>>]
    [] a.op = "Len" -> [q |-> q, r |-> <<Len(q)>>]
    [] a.op = "Keys" -> [q |-> q, r |-> KeysOf(q)]
    [] a.op = "Values" -> [q |-> q, r |-> ValsOf(q)]
    [] a.op = "Range" -> [q |-> q, r |-> IF a.k < 1 \/ a.k > Len(q) THEN KeysOf(q) ELSE SubSeq(KeysOf(q), 1, a.k)]  \* an inner one, up to its visit k
RECURSIVE Acts(_, _, _)
Acts(q, l, i) == IF i > Len(l) THEN [q |-> q, rs |-> <<>>, gone |-> {}]
                 ELSE LET x == Act(q, l[i]) y == Acts(x.q, l, i + 1)
                      IN [q |-> y.q, rs |-> <<x.r>> \o y.rs,
                          gone |-> y.gone \cup {k \in {q[j][1] : j \in 1..Len(q)} : ~Has(x.q, k)}]
RECURSIVE Runs(_, _, _, _, _)
Runs(q, last, n, must, o) ==
  LET ahead == {k \in must : k > last}
      cand == {p \in {q[j] : j \in 1..Len(q)} : p[1] > last /\ \A m \in ahead : p[1] <= m}
      one(p) == LET x == Acts(q, SelectSeq(o.script, LAMBDA a : a.at = n), 1)
                    v == <<p[1], p[2], x.rs>>
                IN IF n = o.stop THEN {[st |-> x.q, r |-> <<v>>]}
                   ELSE {[st |-> y.st, r |-> <<v>> \o y.r] : y \in Runs(x.q, p[1], n + 1, must \ x.gone, o)}
  IN (IF ahead = {} THEN {[st |-> q, r |-> <<>>]} ELSE {}) \cup UNION {one(p) : p \in cand}

Ops(s) ==
  IF s = Start THEN {[op |-> "new", kind |-> k] : k \in OKinds}
  ELSE {[op |-> "Set", k |-> k, v |-> v] : k \in OKeys, v \in OVals}
       \cup {[op |-> n, k |-> k] : n \in {"Del", "Get"}, k \in OKeys}
       \cup {[op |-> n] : n \in {"Clear", "Len", "Keys", "Values"}}
       \cup {[op |-> "Range", stop |-> t, script |-> <<>>] : t \in 0..(Len(s.q) - 1)}
       \cup {[op |-> "Range", stop |-> 0, script |-> <<[at |-> t, op |-> a, k |-> k, v |-> 2]>>] :
             t \in 1..2, a \in {"Set", "Del", "Clear", "Keys", "Range"}, k \in OScripts}
       \cup {[op |-> "Range", stop |-> 3, script |-> <<[at |-> 1, op |-> "Del", k |-> j, v |-> 0], [at |-> t, op |-> "Set", k |-> k, v |-> 1]>>] :
             t \in 1..2, j \in OScripts, k \in OScripts}
Do(s, o) ==
  CASE o.op = "new" -> Out([q |-> <<>>], TRUE)
    [] o.op = "Set" -> Out([q |-> Put(s.q, o.k, o.v)], TRUE)
    [] o.op = "Del" -> Out([q |-> Drop(s.q, o.k)], TRUE)
    [] o.op = "Clear" -> Out([q |-> <<>>], TRUE)
    [] o.op = "SetN" -> Out([q |-> PutRun(s.q, o.k, o.n, o.v)], TRUE)  \* in any order
    [] o.op = "DelN" -> Out([q |-> DropRun(s.q, o.k, o.n)], TRUE)
    [] o.op = "Get" -> Out(s, IF Has(s.q, o.k) THEN <<At(s.q, o.k)>> ELSE <<>>)
    [] o.op = "Len" -> Out(s, Len(s.q))
    [] o.op = "Keys" -> Out(s, KeysOf(s.q))
    [] o.op = "Values" -> Out(s, ValsOf(s.q))
    [] o.op = "RangeN" -> Out(s, IF o.stop = 0 \/ o.stop > Len(s.q) THEN s.q ELSE SubSeq(s.q, 1, o.stop))  \* no actions
    [] o.op = "Range" -> {[st |-> [q |-> x.st], r |-> x.r] : x \in Runs(s.q, NoKey, 1, {s.q[j][1] : j \in 1..Len(s.q)}, o)}
=============================================================================
