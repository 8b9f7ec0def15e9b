------------------------------ MODULE SeqTrace ------------------------------
(* A recorded history of a sequential component must be a behaviour of its specification.                     *)
EXTENDS TraceLib
CONSTANTS Start, Do(_, _)
VARIABLES tid, l, st
TraceInit == tid \in 1..NTraces /\ l = 1 /\ st = Start
TraceNext == /\ l <= Len(Ev(tid))
             /\ Ev(tid)[l].k = "op"
             /\ \E x \in Do(st, Ev(tid)[l].o) : x.r = Ev(tid)[l].r /\ st' = x.st
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
Constr == Accepted(tid, l)
=============================================================================
