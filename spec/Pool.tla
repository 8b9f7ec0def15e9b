-------------------------------- MODULE Pool --------------------------------
(* poolx/gopoolx.TimedPool at the level of its interface.                                                     *)
(* par: [max, pre, idle, gc, slow]: worker limit, preheat, idle timeout, collection period (in ms); slow says *)
(* that time may pass while something could run, so that no upper bound on delays holds.                      *)
(* A worker is absent ("none"), idle since a moment, has been given a job ("assigned"), runs its handler      *)
(* ("busy"), has finished it ("finishing") or has been told to end ("leaving").                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Jobs, Wk

VARIABLES par, wk, job, op, stopReq, draining, now
vars == <<par, wk, job, op, stopReq, draining, now>>

None == [st |-> "none", v |-> 0, since |-> 0]
Idle0 == [st |-> "idle", v |-> 0, since |-> 0]
OpIdle == [st |-> "idle", v |-> 0, ok |-> FALSE]

Min(a, b) == IF a < b THEN a ELSE b
InitWith(p) == /\ par = p
               /\ wk = [w \in Wk |-> IF w <= Min(p.pre, p.max) THEN Idle0 ELSE None]
               /\ job = [v \in Jobs |-> "new"]
               /\ op = [t \in Thr |-> OpIdle]
               /\ stopReq = FALSE /\ draining = FALSE /\ now = 0

Live == {w \in Wk : wk[w].st # "none"}
IdleW == {w \in Wk : wk[w].st = "idle"}
Running == {w \in Wk : wk[w].st = "busy"}
Free == {w \in Wk : wk[w].st = "none"}
FirstFree == CHOOSE w \in Free : \A u \in Free : w <= u

(* ---- Run ---- *)
CallRun(t, v) == /\ op[t].st = "idle" /\ job[v] = "new"
                 /\ op' = [op EXCEPT ![t] = [st |-> "run", v |-> v, ok |-> FALSE]]
                 /\ job' = [job EXCEPT ![v] = "called"]
                 /\ UNCHANGED <<par, wk, stopReq, draining, now>>
Give(t, w) == /\ wk' = [wk EXCEPT ![w] = [st |-> "assigned", v |-> op[t].v, since |-> 0]]
              /\ job' = [job EXCEPT ![op[t].v] = "accepted"]
              /\ op' = [op EXCEPT ![t].st = "ran", ![t].ok = TRUE]
              /\ UNCHANGED <<par, stopReq, draining, now>>
RunReuse(t, w) == /\ op[t].st = "run" /\ ~draining /\ w \in IdleW /\ Give(t, w)
RunSpawn(t) == /\ op[t].st = "run" /\ ~draining /\ IdleW = {} /\ Cardinality(Live) < par.max
               /\ Give(t, FirstFree)
RunRefuse(t) == /\ op[t].st = "run" /\ (draining \/ (IdleW = {} /\ Cardinality(Live) >= par.max))
                /\ job' = [job EXCEPT ![op[t].v] = "refused"]
                /\ op' = [op EXCEPT ![t].st = "ran", ![t].ok = FALSE]
                /\ UNCHANGED <<par, wk, stopReq, draining, now>>
RetRun(t, v, ok) == /\ op[t].st = "ran" /\ op[t].v = v /\ op[t].ok = ok
                    /\ op' = [op EXCEPT ![t] = OpIdle]
                    /\ UNCHANGED <<par, wk, job, stopReq, draining, now>>

(* ---- workers ---- *)
HandlerStart(w, v) == /\ wk[w].st = "assigned" /\ wk[w].v = v
                      /\ wk' = [wk EXCEPT ![w].st = "busy"]
                      /\ job' = [job EXCEPT ![v] = "running"]
                      /\ UNCHANGED <<par, op, stopReq, draining, now>>
HandlerEnd(w, v) == /\ wk[w].st = "busy" /\ wk[w].v = v
                    /\ wk' = [wk EXCEPT ![w] = [st |-> "finishing", v |-> 0, since |-> now]]
                    /\ job' = [job EXCEPT ![v] = "done"]
                    /\ UNCHANGED <<par, op, stopReq, draining, now>>
Settle(w) == /\ wk[w].st = "finishing"
             /\ wk' = [wk EXCEPT ![w].st = IF draining THEN "leaving" ELSE "idle"]
             /\ UNCHANGED <<par, job, op, stopReq, draining, now>>
Reap(w) == /\ wk[w].st = "idle" /\ ~draining /\ now - wk[w].since >= par.idle
           /\ wk' = [wk EXCEPT ![w].st = "leaving"]
           /\ UNCHANGED <<par, job, op, stopReq, draining, now>>
Leave(w) == /\ wk[w].st = "leaving"
            /\ wk' = [wk EXCEPT ![w] = None]
            /\ UNCHANGED <<par, job, op, stopReq, draining, now>>

(* ---- Stop ---- *)
CallStop(t) == /\ op[t].st = "idle"
               /\ op' = [op EXCEPT ![t] = [st |-> "stop", v |-> 0, ok |-> FALSE]]
               /\ stopReq' = TRUE
               /\ UNCHANGED <<par, wk, job, draining, now>>
StopTake == /\ stopReq /\ ~draining
            /\ draining' = TRUE
            /\ wk' = [w \in Wk |-> IF wk[w].st = "idle" THEN [wk[w] EXCEPT !.st = "leaving"] ELSE wk[w]]
            /\ UNCHANGED <<par, job, op, stopReq, now>>
RetStop(t) == /\ op[t].st = "stop"
              /\ op' = [op EXCEPT ![t] = OpIdle]
              /\ UNCHANGED <<par, wk, job, stopReq, draining, now>>

(* ---- Workers ---- *)
CallWorkers(t) == /\ op[t].st = "idle"
                  /\ op' = [op EXCEPT ![t] = [st |-> "workers", v |-> 0, ok |-> FALSE]]
                  /\ UNCHANGED <<par, wk, job, stopReq, draining, now>>
ReadWorkers(t) == /\ op[t].st = "workers"
                  /\ op' = [op EXCEPT ![t] = [st |-> "read", v |-> Cardinality(Live), ok |-> TRUE]]
                  /\ UNCHANGED <<par, wk, job, stopReq, draining, now>>
RetWorkers(t, n) == /\ op[t].st = "read" /\ op[t].v = n
                    /\ op' = [op EXCEPT ![t] = OpIdle]
                    /\ UNCHANGED <<par, wk, job, stopReq, draining, now>>

(* ---- time ---- *)
(* Unless slow, time passes only when no worker has anything to do and a requested stop has taken effect. *)
Settled == /\ \A w \in Wk : wk[w].st \notin {"assigned", "finishing", "leaving"}
           /\ stopReq => draining
Overdue(w, at) == wk[w].st = "idle" /\ at - wk[w].since > par.idle + 2 * par.gc
Advance(to) == /\ to > now
               /\ ~par.slow => (Settled /\ \A w \in Wk : ~Overdue(w, now))
               /\ now' = to
               /\ UNCHANGED <<par, wk, job, op, stopReq, draining>>

Internal == \/ StopTake
            \/ \E w \in Wk : Settle(w) \/ Reap(w) \/ Leave(w)
            \/ \E t \in Thr : RunSpawn(t) \/ RunRefuse(t) \/ ReadWorkers(t) \/ \E w \in Wk : RunReuse(t, w)

(* ---- properties ---- *)
Limit == Cardinality(Live) <= par.max /\ Cardinality(Running) <= par.max
OneWorkerPerJob == \A v, w \in Wk : (v # w /\ wk[v].v # 0) => wk[v].v # wk[w].v
JobsConsistent == \A v \in Jobs : /\ (job[v] = "accepted") = (\E w \in Wk : wk[w].st = "assigned" /\ wk[w].v = v)
                                  /\ (job[v] = "running") = (\E w \in Wk : wk[w].st = "busy" /\ wk[w].v = v)
=============================================================================
