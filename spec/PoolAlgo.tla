------------------------------ MODULE PoolAlgo ------------------------------
(* poolx/gopoolx.TimedPool step by step: the idle workers as a stack under a mutex, a worker's channel with     *)
(* room for one job, a collector that takes the old workers off the bottom of the stack and closes their        *)
(* channels, and Stop, which hands the collector a signal.  Refines Pool.tla; the time stamps are taken at a    *)
(* clock that does not run while something can be done.                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Thr, Jobs, Max, Pre, MaxTime, MaxOps
Wk == 1..Max
par == [max |-> Max, pre |-> Pre, idle |-> 2, gc |-> 1, slow |-> FALSE]

VARIABLES mu,        \* who holds the mutex over several steps: "" (nobody), "gc" or "worker"
          maxw,      \* the limit, -1 once the pool is draining
          workers,   \* the counter of workers
          dobby,     \* the stack of idle workers
          stopper,   \* whether the stop channel is still there to be taken
          tick,      \* a tick waits in the ticker's channel
          gpc, reaped,  \* the collector and the workers it has taken and not yet closed
          wpc, ch, closed, tt, cur,   \* per worker: place, job in its channel, channel closed, time stamp, job in hand
          pc, wsel,  \* per client: place, worker it will send to
          job, op, stopReq, now, nops
avars == <<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, ch, closed, tt, cur, pc, wsel, job, op, stopReq, now, nops>>
P0 == IF Pre < Max THEN Pre ELSE Max
OpIdle == [st |-> "idle", v |-> 0, ok |-> FALSE]

AInit == /\ mu = "" /\ maxw = Max /\ workers = P0 /\ dobby = [i \in 1..P0 |-> i] /\ stopper = TRUE /\ tick = FALSE
         /\ gpc = "select" /\ reaped = {}
         /\ wpc = [w \in Wk |-> IF w <= P0 THEN "wait" ELSE "none"]
         /\ ch = [w \in Wk |-> 0] /\ closed = [w \in Wk |-> FALSE] /\ tt = [w \in Wk |-> 0] /\ cur = [w \in Wk |-> 0]
         /\ pc = [t \in Thr |-> "idle"] /\ wsel = [t \in Thr |-> 0]
         /\ job = [v \in Jobs |-> "new"] /\ op = [t \in Thr |-> OpIdle] /\ stopReq = FALSE /\ now = 0 /\ nops = 0

InStack(w) == \E i \in 1..Len(dobby) : dobby[i] = w
Sent(w) == IF ch[w] # 0 THEN ch[w] ELSE LET s == {t \in Thr : pc[t] = "send" /\ wsel[t] = w}
                                        IN IF s = {} THEN 0 ELSE op[CHOOSE t \in s : TRUE].v
AbsWk == [w \in Wk |->
   CASE wpc[w] = "none" -> [st |-> "none", v |-> 0, since |-> 0]
     [] wpc[w] = "wait" /\ closed[w] -> [st |-> "leaving", v |-> 0, since |-> tt[w]]
     [] wpc[w] = "wait" /\ w \in reaped -> [st |-> "leaving", v |-> 0, since |-> tt[w]]
     [] wpc[w] = "wait" /\ ~closed[w] /\ w \notin reaped /\ InStack(w) -> [st |-> "idle", v |-> 0, since |-> tt[w]]
     [] wpc[w] = "wait" /\ ~closed[w] /\ w \notin reaped /\ ~InStack(w) -> [st |-> "assigned", v |-> Sent(w), since |-> 0]
     [] wpc[w] = "got" -> [st |-> "assigned", v |-> cur[w], since |-> 0]
     [] wpc[w] = "busy" -> [st |-> "busy", v |-> cur[w], since |-> 0]
     [] wpc[w] = "free" -> [st |-> "finishing", v |-> 0, since |-> tt[w]]
     [] wpc[w] \in {"exit", "count"} -> [st |-> "leaving", v |-> 0, since |-> tt[w]]]
P == INSTANCE Pool WITH wk <- AbsWk, draining <- (maxw = -1)

U(x) == UNCHANGED x
client == <<pc, wsel, op, stopReq, nops>>
(* ---- clients ---- *)
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
CallRun(t, v) == /\ pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ job[v] = "new"
                 /\ \A u \in Jobs : job[u] = "new" => v <= u
                 /\ Go(t, "run") /\ op' = [op EXCEPT ![t] = [st |-> "run", v |-> v, ok |-> FALSE]]
                 /\ job' = [job EXCEPT ![v] = "called"]
                 /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, ch, closed, tt, cur, wsel, stopReq, now>>)
Refused(t) == /\ job' = [job EXCEPT ![op[t].v] = "refused"] /\ op' = [op EXCEPT ![t].st = "ran", ![t].ok = FALSE]
              /\ Go(t, "ret") /\ U(<<workers, dobby, wpc, closed, wsel>>)
Give(t, w) == /\ job' = [job EXCEPT ![op[t].v] = "accepted"] /\ op' = [op EXCEPT ![t].st = "ran", ![t].ok = TRUE]
              /\ wsel' = [wsel EXCEPT ![t] = w] /\ Go(t, "send")
Run(t) == /\ pc[t] = "run" /\ mu = ""
          /\ IF maxw = -1 THEN Refused(t)
             ELSE IF dobby # <<>> THEN Give(t, dobby[Len(dobby)]) /\ dobby' = SubSeq(dobby, 1, Len(dobby) - 1) /\ U(<<workers, wpc, closed>>)
             ELSE IF workers < maxw
                  THEN LET w == CHOOSE w \in Wk : wpc[w] = "none" /\ \A u \in Wk : wpc[u] = "none" => w <= u
                       IN Give(t, w) /\ workers' = workers + 1 /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ closed' = [closed EXCEPT ![w] = FALSE] /\ U(dobby)
             ELSE Refused(t)
          /\ U(<<mu, maxw, stopper, tick, gpc, reaped, ch, tt, cur, stopReq, now, nops>>)
Send(t) == /\ pc[t] = "send" /\ ch[wsel[t]] = 0 /\ ch' = [ch EXCEPT ![wsel[t]] = op[t].v] /\ Go(t, "ret")
           /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, closed, tt, cur, wsel, job, op, stopReq, now, nops>>)
CallStop(t) == /\ pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ Go(t, "stop")
               /\ op' = [op EXCEPT ![t] = [st |-> "stop", v |-> 0, ok |-> FALSE]] /\ stopReq' = TRUE
               /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, ch, closed, tt, cur, wsel, job, now>>)
Stop(t) == /\ pc[t] = "stop" /\ mu = "" /\ stopper' = FALSE /\ Go(t, IF stopper THEN "signal" ELSE "ret")
           /\ U(<<mu, maxw, workers, dobby, tick, gpc, reaped, wpc, ch, closed, tt, cur, wsel, job, op, stopReq, now, nops>>)
Signal(t) == /\ pc[t] = "signal" /\ gpc = "select" /\ gpc' = "stop" /\ Go(t, "ret")
             /\ U(<<mu, maxw, workers, dobby, stopper, tick, reaped, wpc, ch, closed, tt, cur, wsel, job, op, stopReq, now, nops>>)
CallWorkers(t) == /\ pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ Go(t, "workers")
                  /\ op' = [op EXCEPT ![t] = [st |-> "workers", v |-> 0, ok |-> FALSE]]
                  /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, ch, closed, tt, cur, wsel, job, stopReq, now>>)
Workers(t) == /\ pc[t] = "workers" /\ mu = "" /\ op' = [op EXCEPT ![t] = [st |-> "read", v |-> workers, ok |-> TRUE]] /\ Go(t, "ret")
              /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, ch, closed, tt, cur, wsel, job, stopReq, now, nops>>)
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle") /\ op' = [op EXCEPT ![t] = OpIdle]
          /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, wpc, ch, closed, tt, cur, wsel, job, stopReq, now, nops>>)

(* ---- workers ---- *)
W(w, l) == wpc' = [wpc EXCEPT ![w] = l]
Receive(w) == /\ wpc[w] = "wait" /\ ch[w] # 0 /\ W(w, "got") /\ cur' = [cur EXCEPT ![w] = ch[w]] /\ ch' = [ch EXCEPT ![w] = 0]
              /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, closed, tt, job, now>>) /\ U(client)
RangeEnds(w) == /\ wpc[w] = "wait" /\ ch[w] = 0 /\ closed[w] /\ W(w, "exit")
                /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, ch, closed, tt, cur, job, now>>) /\ U(client)
Start(w) == /\ wpc[w] = "got" /\ W(w, "busy") /\ job' = [job EXCEPT ![cur[w]] = "running"]
            /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, ch, closed, tt, cur, now>>) /\ U(client)
Finish(w) == /\ wpc[w] = "busy" /\ W(w, "free") /\ job' = [job EXCEPT ![cur[w]] = "done"] /\ tt' = [tt EXCEPT ![w] = now]
             /\ cur' = [cur EXCEPT ![w] = 0]
             /\ U(<<mu, maxw, workers, dobby, stopper, tick, gpc, reaped, ch, closed, now>>) /\ U(client)
Free(w) == /\ wpc[w] = "free" /\ mu = ""
           /\ IF maxw = -1 THEN mu' = "worker" /\ W(w, "count") /\ U(dobby) ELSE dobby' = Append(dobby, w) /\ W(w, "wait") /\ U(mu)
           /\ U(<<maxw, workers, stopper, tick, gpc, reaped, ch, closed, tt, cur, job, now>>) /\ U(client)
Count(w) == /\ \/ wpc[w] = "count" /\ mu' = ""       \* still holding the mutex
               \/ wpc[w] = "exit" /\ mu = "" /\ U(mu)
            /\ workers' = workers - 1 /\ W(w, "none") /\ tt' = [tt EXCEPT ![w] = 0]
            /\ U(<<maxw, dobby, stopper, tick, gpc, reaped, ch, closed, cur, job, now>>) /\ U(client)

(* ---- collector ---- *)
RECURSIVE Find(_, _, _)
Find(l, r, old) == IF l >= r THEN l ELSE LET m == (l + r) \div 2
                   IN IF tt[dobby[m + 1]] < old THEN Find(m + 1, r, old) ELSE Find(l, m, old)
Collect == /\ gpc = "select" /\ tick /\ tick' = FALSE /\ gpc' = "lock"
           /\ U(<<mu, maxw, workers, dobby, stopper, reaped, wpc, ch, closed, tt, cur, job, now>>) /\ U(client)
GcLock == /\ gpc = "lock" /\ mu = "" /\ mu' = "gc" /\ gpc' = "reap"
          /\ U(<<maxw, workers, dobby, stopper, tick, reaped, wpc, ch, closed, tt, cur, job, now>>) /\ U(client)
Reap == /\ gpc = "reap" /\ mu = "gc"
        /\ IF Find(0, Len(dobby), now - par.idle) > 0
           THEN dobby' = Tail(dobby) /\ reaped' = reaped \cup {Head(dobby)} /\ U(<<mu, gpc>>)
           ELSE mu' = "" /\ gpc' = "close" /\ U(<<dobby, reaped>>)
        /\ U(<<maxw, workers, stopper, tick, wpc, ch, closed, tt, cur, job, now>>) /\ U(client)
Close == /\ gpc = "close"
         /\ IF reaped = {} THEN gpc' = "select" /\ U(<<closed, reaped>>)
            ELSE \E w \in reaped : closed' = [closed EXCEPT ![w] = TRUE] /\ reaped' = reaped \ {w} /\ U(gpc)
         /\ U(<<mu, maxw, workers, dobby, stopper, tick, wpc, ch, tt, cur, job, now>>) /\ U(client)
Drain == /\ gpc = "stop" /\ mu = "" /\ gpc' = "dead" /\ maxw' = -1
         /\ closed' = [w \in Wk |-> closed[w] \/ InStack(w)]
         /\ U(<<mu, workers, dobby, stopper, tick, reaped, wpc, ch, tt, cur, job, now>>) /\ U(client)

Quiet == /\ gpc \in {"select", "dead"} /\ (gpc = "select" => ~tick)
         /\ \A t \in Thr : pc[t] \in {"idle", "ret"}
         /\ \A w \in Wk : wpc[w] \in {"none", "busy"} \/ (wpc[w] = "wait" /\ ch[w] = 0 /\ ~closed[w])
Advance == /\ now < MaxTime /\ Quiet /\ now' = now + 1 /\ tick' = (gpc # "dead")
           /\ U(<<mu, maxw, workers, dobby, stopper, gpc, reaped, wpc, ch, closed, tt, cur, job>>) /\ U(client)

Work == \/ \E t \in Thr : Run(t) \/ Send(t) \/ Stop(t) \/ Signal(t) \/ Workers(t) \/ Ret(t)
        \/ \E w \in Wk : Receive(w) \/ RangeEnds(w) \/ Start(w) \/ Finish(w) \/ Free(w) \/ Count(w)
        \/ Collect \/ GcLock \/ Reap \/ Close \/ Drain
ANext == Work \/ Advance \/ \E t \in Thr : (\E v \in Jobs : CallRun(t, v)) \/ CallStop(t) \/ CallWorkers(t)
ASpec == AInit /\ [][ANext]_avars /\ WF_avars(Work)

PStep == \/ P!Internal \/ P!Advance(now + 1)
         \/ \E t \in Thr : \/ P!CallStop(t) \/ P!CallWorkers(t) \/ P!RetStop(t)
                           \/ \E v \in Jobs : P!CallRun(t, v) \/ \E ok \in BOOLEAN : P!RetRun(t, v, ok)
                           \/ \E n \in 0..Max : P!RetWorkers(t, n)
         \/ \E w \in Wk, v \in Jobs : P!HandlerStart(w, v) \/ P!HandlerEnd(w, v)
Refines == P!InitWith(par) /\ [][PStep]_<<AbsWk, job, op, stopReq, maxw = -1, now>>
CounterOK == workers = Cardinality({w \in Wk : wpc[w] # "none"})
NoBlock == \A t \in Thr : pc[t] = "send" => ch[wsel[t]] = 0 /\ ~closed[wsel[t]]   \* never sends on a full or closed channel
AcceptedHandled == \A v \in Jobs : job[v] = "accepted" ~> job[v] = "done"
StopEmpties == stopReq ~> workers = 0
CallsReturn == \A t \in Thr : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
