------------------------------ MODULE UsingTrace ----------------------------
EXTENDS TraceLib
VARIABLES tid, l, op
vars == <<tid, l, op>>
S == INSTANCE Using WITH Thr <- 0..9, Lists <- {}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!Init
Step(e) == \/ e.k = "call" /\ S!Call(e.t, e.list)
           \/ e.k = "body" /\ S!Body(e.t)
           \/ e.k = "end" /\ S!BodyEnd(e.t, e.pan)
           \/ e.k = "cl" /\ S!CloseOne(e.t, e.x, e.id, e.fails)
           \/ e.k = "ret" /\ e.same /\ S!Ret(e.t, e.pan, e.nil, e.errs)
           \/ e.k = "recheck" /\ e.same /\ UNCHANGED op
           \/ e.k = "fin" /\ UNCHANGED op
TraceNext == l <= Len(Ev(tid)) /\ Step(Ev(tid)[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
