----------------------------- MODULE ConvRegTrace ---------------------------
EXTENDS TraceLib
VARIABLES tid, l, tbl, op
vars == <<tid, l, tbl, op>>
T == 1..90
S == INSTANCE ConvReg WITH Thr <- T, Pairs <- 1..15, Convs <- {}, Vals <- {}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!Init
e == Ev(tid)[l]
Step == \/ e.k = "call" /\ S!Call(e.t, e.op, e.p, e.arg, e.or)
        \/ e.k = "conv" /\ S!Convert(e.t, e.c, e.v)
        \/ e.k = "ret" /\ S!Ret(e.t, e.op, e.ok, e.res)
        \/ e.k = "fin" /\ UNCHANGED <<tbl, op>>
TraceNext == /\ l <= Len(Ev(tid)) /\ UNCHANGED tid
             /\ \/ Step /\ l' = l + 1
                \/ e.k \in {"ret", "conv"} /\ op[e.t].st = "called" /\ UNCHANGED l /\ \E t \in T : S!Effect(t)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
