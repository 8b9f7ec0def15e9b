------------------------------ MODULE SkipMap -------------------------------
(* Skip-list maps (st.ms) and their iterators (st.it: map and last key returned, NoKey if none).  Operations   *)
(* name their map by m and their iterator by i.  The key type is "kind"; keys are numbers here.                *)
EXTENDS MapLib, TLC
CONSTANTS MKinds, MMaps, MKeys, MVals, MIters, MReads
NoKey == -1000000
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}
SetMap(s, m, q) == [s EXCEPT !.ms[m] = q]
(* The printed form. *)
RECURSIVE Body(_, _)
Body(q, i) == IF i > Len(q) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o ToString(q[i][1]) \o ":" \o ToString(q[i][2]) \o Body(q, i + 1)
Printed(q) == "sklmapx[" \o Body(q, 1) \o "]"

MK == {k - 2 : k \in MKeys}  \* negative keys too
Ops(s) ==
  IF s = Start THEN {[op |-> "new", kind |-> k, maps |-> MMaps, iters |-> MIters] : k \in MKinds}
  ELSE {[op |-> "Set", m |-> m, k |-> k, v |-> v] : m \in 1..Len(s.ms), k \in MK, v \in MVals}
       \cup {[op |-> n, m |-> m, k |-> k] : n \in {"Del"} \cup (IF MReads THEN {"Get"} ELSE {}), m \in 1..Len(s.ms), k \in MK}
       \cup {[op |-> n, m |-> m] : n \in {"Clear"} \cup (IF MReads THEN {"Len", "Keys", "Values", "ToMap"} ELSE {}), m \in 1..Len(s.ms)}
       \cup (IF MReads /\ s.kind = 0 THEN {[op |-> "String", m |-> m] : m \in 1..Len(s.ms)} ELSE {})
       \cup {[op |-> n, i |-> i] : n \in {"Next", "Rewind"}, i \in 1..Len(s.it)}
       \cup {[op |-> "Seek", i |-> i, k |-> k] : i \in 1..Len(s.it), k \in MK}
Do(s, o) ==
  CASE o.op = "new" -> Out([kind |-> o.kind, ms |-> [j \in 1..o.maps |-> <<>>],
                            it |-> [j \in 1..o.iters |-> [m |-> ((j - 1) % o.maps) + 1, k |-> NoKey]]], TRUE)
    [] o.op = "Set" -> Out(SetMap(s, o.m, Put(s.ms[o.m], o.k, o.v)), TRUE)
    [] o.op = "Del" -> Out(SetMap(s, o.m, Drop(s.ms[o.m], o.k)), Has(s.ms[o.m], o.k))
    [] o.op = "Fill" -> \* keys 0..n-1 into an empty map, in any order
         Out(SetMap(s, o.m, [j \in 1..o.n |-> <<j - 1, (j - 1) % 7>>]), TRUE)
    [] o.op = "SetN" -> Out(SetMap(s, o.m, PutRun(s.ms[o.m], o.k, o.n, o.v)), TRUE)  \* in any order
    [] o.op = "DelN" -> Out(SetMap(s, o.m, DropRun(s.ms[o.m], o.k, o.n)), Len(s.ms[o.m]) - Len(DropRun(s.ms[o.m], o.k, o.n)))
    [] o.op = "Churn" -> \* n times: a new key is set, read, deleted and no longer there
         Out(s, TRUE)
    [] o.op = "Clear" -> Out(SetMap(s, o.m, <<>>), TRUE)
    [] o.op = "Get" -> Out(s, IF Has(s.ms[o.m], o.k) THEN <<At(s.ms[o.m], o.k)>> ELSE <<>>)
    [] o.op = "Len" -> Out(s, Len(s.ms[o.m]))
    [] o.op = "Keys" -> Out(s, KeysOf(s.ms[o.m]))
    [] o.op = "Values" -> Out(s, ValsOf(s.ms[o.m]))
    [] o.op = "ToMap" -> Out(s, s.ms[o.m])
    [] o.op = "String" -> Out(s, Printed(s.ms[o.m]))
    [] o.op = "iter" -> Out([s EXCEPT !.it = Append(@, [m |-> o.m, k |-> NoKey])], TRUE)
    [] o.op = "Rewind" -> Out([s EXCEPT !.it[o.i].k = NoKey], TRUE)
    [] o.op = "Next" -> LET a == Above(s.ms[s.it[o.i].m], s.it[o.i].k)
                        IN IF a = <<>> THEN Out(s, <<>>) ELSE Out([s EXCEPT !.it[o.i].k = a[1][1]], a[1])
    [] o.op = "Seek" -> LET q == s.ms[s.it[o.i].m]
                        IN IF Has(q, o.k) THEN Out([s EXCEPT !.it[o.i].k = o.k], <<o.k, At(q, o.k)>>)
                           ELSE Out([s EXCEPT !.it[o.i].k = NoKey], <<>>)
=============================================================================
