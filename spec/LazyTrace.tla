------------------------------ MODULE LazyTrace -----------------------------
EXTENDS TraceLib
VARIABLES tid, l, ctor, op
vars == <<tid, l, ctor, op>>
Z == INSTANCE Lazy WITH Thr <- 1..30, Obj <- 1..5, Val <- {}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ Z!Init
Step(e) == \/ e.k = "call" /\ Z!CallGet(e.t, e.x)
           \/ e.k = "cs" /\ Z!CtorStart(e.x)
           \/ e.k = "ce" /\ Z!CtorEnd(e.x, e.v)
           \/ e.k = "cp" /\ Z!CtorPanic(e.x)
           \/ e.k = "ret" /\ e.pan /\ Z!PanicGet(e.t, e.x)
           \/ e.k = "ret" /\ ~e.pan /\ e.v = 0 /\ Z!ZeroGet(e.t, e.x)
           \/ e.k = "ret" /\ ~e.pan /\ e.same /\ Z!RetGet(e.t, e.x, e.v)
           \/ e.k = "mk" /\ ctor[e.x].st = "none" /\ UNCHANGED <<ctor, op>>
           \/ e.k = "fin" /\ UNCHANGED <<ctor, op>>
TraceNext == l <= Len(Ev(tid)) /\ Step(Ev(tid)[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
