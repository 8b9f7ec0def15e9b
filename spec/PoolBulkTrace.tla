--------------------------- MODULE PoolBulkTrace ----------------------------
(* Aspect: jobs (C01), limit (C02), stop (C03).                                                                *)
EXTENDS TraceLib
CONSTANT Aspect
VARIABLES tid, l, par, busy, done, peak, groups, stopped
pvars == <<par, busy, done, peak, groups, stopped>>
vars == <<tid, l, pvars>>
P == INSTANCE PoolBulk
A(a) == Aspect = a
TraceInit == tid \in 1..NTraces /\ l = 1 /\ P!InitWith(Cfg(tid))
e == Ev(tid)[l]
Step ==
  \/ e.k = "fill" /\ (A("limit") => P!Fits(e.n, e.a)) /\ (A("stop") /\ stopped => e.a = 0) /\ P!Fill(e.a, e.now)
  \/ e.k = "release" /\ P!Release(e.now)
  \/ e.k = "stop" /\ P!Stop
  \/ e.k = "read" /\ ((A("stop") \/ (A("limit") /\ ~stopped)) => P!Bound(e.n, e.now, A("stop"))) /\ UNCHANGED pvars
  \/ e.k = "count" /\ (A("jobs") => e.done = done /\ e.busy = busy /\ e.twice = 0)
                   /\ (A("limit") => e.peak <= par.max) /\ UNCHANGED pvars
  \/ e.k = "hang" /\ A("limit") /\ UNCHANGED pvars
TraceNext == l <= Len(Ev(tid)) /\ UNCHANGED tid /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
