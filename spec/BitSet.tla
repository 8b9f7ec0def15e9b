------------------------------- MODULE BitSet -------------------------------
(* Bit set over a word of w bits: s.b[i+1] tells whether position i is in the set.                             *)
EXTENDS Integers, Sequences
CONSTANTS BKinds, BPos, BMany
Start == [start |-> TRUE]
Out(s, r) == {[st |-> s, r |-> r]}
(* Word types by number: uint8, uint16, uint32, uint64, uint, uintptr and a named type of each. *)
Width(k) == <<8, 16, 32, 64, 64, 64, 8, 16, 32, 64, 64, 64>>[k + 1]
Has(s, i) == i < Len(s.b) /\ s.b[i + 1]
(* A position named twice is toggled twice. *)
Odd(l, p) == Len(SelectSeq(l, LAMBDA x : x = p)) % 2 = 1
In(l, p) == \E n \in 1..Len(l) : l[n] = p
Upd(b, l, f) == [i \in 1..Len(b) |-> CASE f = "Set" -> b[i] \/ In(l, i - 1) [] f = "Clear" -> b[i] /\ ~In(l, i - 1) [] f = "Toggle" -> b[i] # Odd(l, i - 1)]
P(s) == {p \in BPos : p <= Len(s.b) + 2 \/ p > 64}
Lists(s) == {<<>>} \cup {<<p>> : p \in P(s)} \cup (IF BMany THEN {<<p, q>> : p, q \in P(s)} \cup {<<p, q, p>> : p, q \in P(s)} ELSE {})
Ops(s) == IF s = Start THEN {[op |-> "new", kind |-> k] : k \in BKinds}
          ELSE {[op |-> n, l |-> l] : n \in {"Set", "Clear", "Toggle", "Test"}, l \in Lists(s)}
               \cup {[op |-> n] : n \in {"SetAll", "ClearAll", "ToggleAll", "IsEmpty", "IsFull"}}
Do(s, o) ==
  CASE o.op = "new" -> Out([b |-> [i \in 1..Width(o.kind) |-> FALSE]], TRUE)
    [] o.op \in {"Set", "Clear", "Toggle"} -> Out([b |-> Upd(s.b, o.l, o.op)], TRUE)
    [] o.op = "Test" -> Out(s, \E n \in 1..Len(o.l) : Has(s, o.l[n]))
    [] o.op = "SetAll" -> Out([b |-> [i \in 1..Len(s.b) |-> TRUE]], TRUE)
    [] o.op = "ClearAll" -> Out([b |-> [i \in 1..Len(s.b) |-> FALSE]], TRUE)
    [] o.op = "ToggleAll" -> Out([b |-> [i \in 1..Len(s.b) |-> ~s.b[i]]], TRUE)
    [] o.op = "IsEmpty" -> Out(s, \A i \in 1..Len(s.b) : ~s.b[i])
    [] o.op = "IsFull" -> Out(s, \A i \in 1..Len(s.b) : s.b[i])
=============================================================================
