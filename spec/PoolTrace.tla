----------------------------- MODULE PoolTrace -----------------------------
(* Histories of the real pool against Pool.tla.  Aspect: jobs (C01), limit (C02), stop (C03), all.           *)
EXTENDS TraceLib
CONSTANT Aspect
VARIABLES tid, l, par, wk, job, op, stopReq, draining, now
pvars == <<par, wk, job, op, stopReq, draining, now>>
vars == <<tid, l, par, wk, job, op, stopReq, draining, now>>
T == 0..22
J == 1..24
W == 1..8
P == INSTANCE Pool WITH Thr <- T, Jobs <- J, Wk <- W
A(a) == Aspect \in {a, "all"}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ P!InitWith(Cfg(tid))
e == Ev(tid)[l]

(* ---- the whole behaviour (limit, stop, all) ---- *)
Give(t, w) == P!Give(t, w)
(* workers in the same condition are interchangeable: take the first *)
First(w) == \A u \in 1..(w - 1) : wk[u] # wk[w]
RunReuse(t, w) == First(w) /\ P!RunReuse(t, w)
RunSpawn(t) == IF A("limit") THEN P!RunSpawn(t)
               ELSE op[t].st = "run" /\ ~draining /\ P!Free # {} /\ Give(t, P!FirstFree)
RunRefuse(t) == IF A("limit") THEN P!RunRefuse(t)
                ELSE /\ op[t].st = "run"
                     /\ job' = [job EXCEPT ![op[t].v] = "refused"]
                     /\ op' = [op EXCEPT ![t].st = "ran", ![t].ok = FALSE]
                     /\ UNCHANGED <<par, wk, stopReq, draining, now>>
(* For the limit alone it does not matter when an idle worker ends. *)
Vanish(w) == /\ Aspect = "limit" /\ wk[w].st = "idle"
             /\ wk' = [wk EXCEPT ![w] = P!None]
             /\ UNCHANGED <<par, job, op, stopReq, draining, now>>
Overdue(w, at) == /\ A("stop") /\ ~par.slow
                  /\ wk[w].st \in {"idle", "leaving"} /\ ~draining
                  /\ at - wk[w].since > par.idle + 2 * par.gc
Settled == IF A("stop") THEN P!Settled ELSE \A w \in W : wk[w].st \notin {"assigned", "finishing", "leaving"}
Advance == /\ e.now > now
           /\ ~par.slow => Settled
           /\ now' = e.now
           /\ UNCHANGED <<par, wk, job, op, stopReq, draining>>
RetWorkers(t, n) == P!RetWorkers(t, n)

Internal == \/ P!StopTake
            \/ \E w \in W : First(w) /\ (P!Settle(w) \/ P!Reap(w) \/ P!Leave(w) \/ Vanish(w))
            \/ \E t \in T : RunSpawn(t) \/ RunRefuse(t) \/ P!ReadWorkers(t) \/ \E w \in W : RunReuse(t, w)

(* the constructor refuses unusable arguments in this order *)
NewErr(x) == IF x.max <= 0 THEN "max" ELSE IF x.nilh THEN "handler" ELSE IF x.idle <= 0 THEN "idle" ELSE IF x.gc <= 0 THEN "gc" ELSE ""
Step ==
  \/ e.k = "call" /\ e.op = "run" /\ P!CallRun(e.t, e.v)
  \/ e.k = "ret" /\ e.op = "run" /\ P!RetRun(e.t, e.v, e.ok)
  \/ e.k = "hs" /\ \E w \in W : P!HandlerStart(w, e.v)
  \/ e.k = "he" /\ \E w \in W : P!HandlerEnd(w, e.v)
  \/ e.k = "call" /\ e.op = "stop" /\ P!CallStop(e.t)
  \/ e.k = "ret" /\ e.op = "stop" /\ P!RetStop(e.t)
  \/ e.k = "call" /\ e.op = "workers" /\ P!CallWorkers(e.t)
  \/ e.k = "ret" /\ e.op = "workers" /\ RetWorkers(e.t, e.n)
  \/ e.k = "new" /\ e.err = NewErr(e) /\ e.pool = (e.err = "") /\ UNCHANGED pvars
  \/ e.k = "fin" /\ UNCHANGED pvars
  \/ e.k = "hang" /\ ~A("stop") /\ UNCHANGED pvars
  \/ e.k = "hang" /\ Aspect = "stop" /\ (\A t \in T : op[t].st \notin {"stop", "workers", "read"}) /\ UNCHANGED pvars

FullNext == /\ l <= Len(Ev(tid))
            /\ UNCHANGED tid
            /\ \/ e.now <= now /\ (\A w \in W : ~Overdue(w, now)) /\ Step /\ l' = l + 1
               \/ UNCHANGED l /\ (Internal \/ Advance)

(* ---- jobs alone ---- *)
Same == UNCHANGED <<par, wk, op, stopReq, draining, now>>
SetJob(v, s) == job' = [job EXCEPT ![v] = s] /\ Same
(* job states: new, called, refused, accepted (Run has returned), running+ / done+ (Run has returned), running / done *)
JobStep ==
  \/ e.k = "call" /\ e.op = "run" /\ job[e.v] = "new" /\ SetJob(e.v, "called")
  \/ e.k = "ret" /\ e.op = "run" /\ ~e.ok /\ job[e.v] = "called" /\ SetJob(e.v, "refused")
  \/ e.k = "ret" /\ e.op = "run" /\ e.ok /\ job[e.v] = "called" /\ SetJob(e.v, "accepted")
  \/ e.k = "ret" /\ e.op = "run" /\ e.ok /\ job[e.v] \in {"running", "done"} /\ SetJob(e.v, job[e.v] \o "+")
  \/ e.k = "hs" /\ e.v \in J /\ job[e.v] = "called" /\ SetJob(e.v, "running")
  \/ e.k = "hs" /\ e.v \in J /\ job[e.v] = "accepted" /\ SetJob(e.v, "running+")
  \/ e.k = "he" /\ e.v \in J /\ job[e.v] = "running" /\ SetJob(e.v, "done")
  \/ e.k = "he" /\ e.v \in J /\ job[e.v] = "running+" /\ SetJob(e.v, "done+")
  \/ e.k \in {"call", "ret"} /\ e.op # "run" /\ UNCHANGED pvars
  \/ e.k = "new" /\ UNCHANGED pvars
  \/ e.k = "fin" /\ (~e.all \/ \A v \in J : job[v] \notin {"accepted", "running", "running+"}) /\ UNCHANGED pvars
  \/ e.k = "hang" /\ (\A v \in J : job[v] \notin {"called", "accepted"}) /\ UNCHANGED pvars
JobsNext == l <= Len(Ev(tid)) /\ UNCHANGED tid /\ JobStep /\ l' = l + 1

TraceNext == IF Aspect = "jobs" THEN JobsNext ELSE FullNext
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
LimitT == Aspect \in {"limit", "all"} => P!Limit
=============================================================================
