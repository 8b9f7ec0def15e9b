----------------------------- MODULE SyncMapTrace ---------------------------
EXTENDS TraceLib
VARIABLES tid, l, m, op
vars == <<tid, l, m, op>>
T == 1..9
S == INSTANCE SyncMap WITH Thr <- T, Keys <- {}, Vals <- {}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!Init
e == Ev(tid)[l]
Step == \/ e.k = "call" /\ S!Call(e.t, e.op, e.key, e.val)
        \/ e.k = "ret" /\ S!Ret(e.t, e.op, e.res)
        \/ e.k = "recheck" /\ e.same /\ UNCHANGED <<m, op>>
        \/ e.k = "fin" /\ UNCHANGED <<m, op>>
(* an operation takes effect no earlier than needed: when the next event is a return *)
TraceNext == /\ l <= Len(Ev(tid)) /\ UNCHANGED tid
             /\ \/ Step /\ l' = l + 1
                \/ e.k = "ret" /\ op[e.t].st = "called" /\ UNCHANGED l /\ \E t \in T : S!Effect(t)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
