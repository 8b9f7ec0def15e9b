---------------------------- MODULE CloseMgrTrace ---------------------------
EXTENDS TraceLib
VARIABLES tid, l, list, turn, op
vars == <<tid, l, list, turn, op>>
T == 1..9
S == INSTANCE CloseMgr WITH Thr <- T, Mgrs <- 0..3, Closers <- {}, Fails <- {}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!Init
e == Ev(tid)[l]
Step == \/ e.k = "call" /\ e.op = "append" /\ S!CallAppend(e.t, e.m, e.x)
        \/ e.k = "call" /\ e.op = "close" /\ S!CallClose(e.t, e.m)
        \/ e.k = "cl" /\ \E t \in T : op[t].m = e.m /\ S!CloseOne(t, e.x, e.fails, e.err)
        \/ e.k = "ret" /\ e.op = "append" /\ S!RetAppend(e.t)
        \/ e.k = "ret" /\ e.op = "close" /\ e.text /\ S!RetClose(e.t, e.nil, e.errs)
        \/ e.k = "fin" /\ UNCHANGED <<list, turn, op>>
TraceNext == /\ l <= Len(Ev(tid)) /\ UNCHANGED tid
             /\ \/ Step /\ l' = l + 1
                \/ e.k \in {"ret", "cl"} /\ UNCHANGED l /\ \E t \in T : S!Internal(t)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
