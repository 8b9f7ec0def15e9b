------------------------------- MODULE PoolMC -------------------------------
(* Exhaustive model of Pool.tla: every thread submits jobs in order, any thread may stop and read Workers. *)
EXTENDS Pool
CONSTANTS Max, Pre, MaxTime, MaxOps
VARIABLE nops
Init == InitWith([max |-> Max, pre |-> Pre, idle |-> 2, gc |-> 1, slow |-> FALSE]) /\ nops = 0
NewJob == CHOOSE v \in Jobs : job[v] = "new" /\ \A u \in Jobs : job[u] = "new" => v <= u
Client == /\ nops < MaxOps /\ nops' = nops + 1
          /\ \E t \in Thr : \/ (\E v \in Jobs : job[v] = "new") /\ CallRun(t, NewJob)
                            \/ CallStop(t) \/ CallWorkers(t)
Answer == \E t \in Thr : \/ \E v \in Jobs, ok \in BOOLEAN : RetRun(t, v, ok)
                         \/ RetStop(t) \/ \E n \in 0..Cardinality(Wk) : RetWorkers(t, n)
Handler == \E w \in Wk, v \in Jobs : HandlerStart(w, v) \/ HandlerEnd(w, v)
Next == Client \/ (UNCHANGED nops /\ (Internal \/ Answer \/ Handler \/ (now < MaxTime /\ Advance(now + 1))))
Work == UNCHANGED nops /\ (StopTake \/ Answer \/ Handler \/ (\E w \in Wk : Settle(w) \/ Leave(w))
           \/ (\E t \in Thr : RunSpawn(t) \/ RunRefuse(t) \/ ReadWorkers(t) \/ \E w \in Wk : RunReuse(t, w)))
Spec == Init /\ [][Next]_<<vars, nops>> /\ WF_<<vars, nops>>(Work)
AcceptedHandled == \A v \in Jobs : job[v] = "accepted" ~> job[v] = "done"
StopEmpties == stopReq ~> Live = {}
CallsReturn == \A t \in Thr : op[t].st # "idle" ~> op[t].st = "idle"
NoneAfterStop == [][draining => \A v \in Jobs : job'[v] = "accepted" => job[v] = "accepted"]_vars
=============================================================================
