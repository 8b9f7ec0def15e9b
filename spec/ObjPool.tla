------------------------------- MODULE ObjPool ------------------------------
(* syncx/syncpoolx.Pool: Get hands out a freshly made object or one that was put back; nobody else has it.    *)
(* The pool may forget objects.                                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Objs

VARIABLES where, \* object -> "unmade" | "made" (not handed out yet) | "held" | "free"
          owner, \* object -> thread that holds it, 0
          op     \* thread -> [st: "idle" | "get" | "got" | "put", x]
vars == <<where, owner, op>>

Init == where = [x \in Objs |-> "unmade"] /\ owner = [x \in Objs |-> 0] /\ op = [t \in Thr |-> [st |-> "idle", x |-> 0]]
CallGet(t) == op[t].st = "idle" /\ op' = [op EXCEPT ![t] = [st |-> "get", x |-> 0]] /\ UNCHANGED <<where, owner>>
(* the initialisation function runs only for a Get *)
Make(x) == /\ where[x] = "unmade" /\ \E t \in Thr : op[t].st = "get"
           /\ where' = [where EXCEPT ![x] = "made"] /\ UNCHANGED <<owner, op>>
RetGet(t, x) == /\ op[t].st = "get" /\ where[x] \in {"made", "free"}
                /\ where' = [where EXCEPT ![x] = "held"] /\ owner' = [owner EXCEPT ![x] = t]
                /\ op' = [op EXCEPT ![t] = [st |-> "idle", x |-> 0]]
CallPut(t, x) == /\ op[t].st = "idle" /\ where[x] = "held" /\ owner[x] = t
                 /\ where' = [where EXCEPT ![x] = "free"] /\ owner' = [owner EXCEPT ![x] = 0]
                 /\ op' = [op EXCEPT ![t] = [st |-> "put", x |-> x]]
RetPut(t, x) == op[t].st = "put" /\ op[t].x = x /\ op' = [op EXCEPT ![t] = [st |-> "idle", x |-> 0]] /\ UNCHANGED <<where, owner>>
Next == \/ \E t \in Thr : CallGet(t) \/ \E x \in Objs : RetGet(t, x) \/ CallPut(t, x) \/ RetPut(t, x)
        \/ \E x \in Objs : Make(x)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(\E x \in Objs : RetPut(t, x))
OneOwner == \A x \in Objs : (owner[x] # 0) = (where[x] = "held")
(* an object changes hands only by being put back *)
Handover == [][\A x \in Objs : (owner[x] # 0 /\ owner'[x] # owner[x]) => owner'[x] = 0 /\ where'[x] = "free"]_vars
PutReturns == \A t \in Thr : [](op[t].st = "put" => <>(op[t].st = "idle"))
=============================================================================
