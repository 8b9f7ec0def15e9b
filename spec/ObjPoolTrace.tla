----------------------------- MODULE ObjPoolTrace ---------------------------
EXTENDS TraceLib
VARIABLES tid, l, where, owner, op
vars == <<tid, l, where, owner, op>>
S == INSTANCE ObjPool WITH Thr <- 1..9, Objs <- 1..64
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!Init
Step(e) == \/ e.k = "call" /\ e.op = "get" /\ S!CallGet(e.t)
           \/ e.k = "mk" /\ e.x \in 1..64 /\ S!Make(e.x)
           \/ e.k = "ret" /\ e.op = "get" /\ e.x \in 1..64 /\ S!RetGet(e.t, e.x)
           \/ e.k = "check" /\ e.same /\ owner[e.x] = e.t /\ UNCHANGED <<where, owner, op>>
           \/ e.k = "call" /\ e.op = "put" /\ S!CallPut(e.t, e.x)
           \/ e.k = "ret" /\ e.op = "put" /\ S!RetPut(e.t, e.x)
           \/ e.k = "fin" /\ UNCHANGED <<where, owner, op>>
TraceNext == l <= Len(Ev(tid)) /\ Step(Ev(tid)[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
