-------------------------------- MODULE Lazy --------------------------------
(* functionalx/lazyx: the constructor of a lazy value runs once, on the first Get, and every Get returns its  *)
(* value after it has completed.  A constructor that panics has run as well: the panic reaches a Get, and      *)
(* later Gets, which have nothing to return, either panic too or return the zero value.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Obj, Val

VARIABLES ctor,  \* object -> [st: "none" | "running" | "done" | "failed" (panicked, nobody knows) | "told", v]
          op     \* thread -> object of its open Get, 0 if none
vars == <<ctor, op>>

Init == ctor = [x \in Obj |-> [st |-> "none", v |-> 0]] /\ op = [t \in Thr |-> 0]
CallGet(t, x) == op[t] = 0 /\ op' = [op EXCEPT ![t] = x] /\ UNCHANGED ctor
CtorStart(x) == /\ ctor[x].st = "none" /\ \E t \in Thr : op[t] = x
                /\ ctor' = [ctor EXCEPT ![x].st = "running"] /\ UNCHANGED op
CtorEnd(x, v) == /\ ctor[x].st = "running"
                 /\ ctor' = [ctor EXCEPT ![x] = [st |-> "done", v |-> v]] /\ UNCHANGED op
CtorPanic(x) == /\ ctor[x].st = "running"
                /\ ctor' = [ctor EXCEPT ![x] = [st |-> "failed", v |-> 0]] /\ UNCHANGED op
PanicGet(t, x) == /\ op[t] = x /\ ctor[x].st \in {"failed", "told"}
                  /\ ctor' = [ctor EXCEPT ![x].st = "told"] /\ op' = [op EXCEPT ![t] = 0]
(* the caller of the failing constructor may be the last to return *)
ZeroGet(t, x) == /\ op[t] = x /\ ctor[x].st \in {"failed", "told"}
                 /\ ctor[x].st = "told" \/ \E u \in Thr \ {t} : op[u] = x
                 /\ op' = [op EXCEPT ![t] = 0] /\ UNCHANGED ctor
RetGet(t, x, v) == /\ op[t] = x /\ ctor[x].st = "done" /\ ctor[x].v = v
                   /\ op' = [op EXCEPT ![t] = 0] /\ UNCHANGED ctor
Next == \/ \E t \in Thr, x \in Obj : CallGet(t, x) \/ PanicGet(t, x) \/ ZeroGet(t, x) \/ \E v \in Val : RetGet(t, x, v)
        \/ \E x \in Obj : CtorStart(x) \/ CtorPanic(x) \/ \E v \in Val : CtorEnd(x, v)
Spec == /\ Init /\ [][Next]_vars
        /\ \A x \in Obj : WF_vars(CtorStart(x)) /\ WF_vars(CtorPanic(x) \/ \E v \in Val : CtorEnd(x, v))
        /\ \A t \in Thr : WF_vars(\E x \in Obj : PanicGet(t, x) \/ ZeroGet(t, x) \/ \E v \in Val : RetGet(t, x, v))

(* the value never changes once made, and nothing is constructed before the first Get *)
Once == [][\A x \in Obj : /\ ctor[x].st = "done" => ctor'[x] = ctor[x]
                         /\ ctor[x].st \in {"failed", "told"} => ctor'[x].st \in {"failed", "told"}]_vars
Lazily == [][\A x \in Obj : (ctor[x].st = "none" /\ ctor'[x].st # "none") => \E t \in Thr : op[t] = x]_vars
GetsReturn == \A t \in Thr : []<>(op[t] = 0)
=============================================================================
