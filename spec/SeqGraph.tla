------------------------------ MODULE SeqGraph ------------------------------
(* State graph of a sequential component.  The component's module defines Start (its state before it is       *)
(* created), Ops(s) (the operations tried in state s) and Do(s, o) (the set of outcomes [st, r]: next state   *)
(* and result).  Every transition TLC finds is printed; the driver replays them into the real code.           *)
EXTENDS TLC, Json
CONSTANTS Start, Ops(_), Do(_, _)
VARIABLE st
Init == st = Start
Next == \E o \in Ops(st) : \E x \in Do(st, o) :
           /\ st' = x.st
           /\ PrintT(ToJson([s |-> st, o |-> o, r |-> x.r, d |-> x.st]))
Spec == Init /\ [][Next]_st
=============================================================================
