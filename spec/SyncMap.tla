------------------------------- MODULE SyncMap ------------------------------
(* dsx/mapx/syncmapx.Map: every operation takes effect at one instant between its call and its return on one  *)
(* ordinary map.  Absent keys read as 0.  Keys and Values yield a snapshot, compared as a sorted sequence.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Thr, Keys, Vals

VARIABLES m,   \* function from the present keys to values
          op   \* thread -> [st: "idle" | "called" | "done", op, key, val, res]
vars == <<m, op>>

Idle == [st |-> "idle", op |-> "", key |-> 0, val |-> 0, res |-> 0]
Init == m = <<>> /\ op = [t \in Thr |-> Idle]

Kinds == {"get", "has", "set", "del", "size", "keys", "values", "clear"}
Call(t, o, k, v) == /\ op[t].st = "idle"
                    /\ op' = [op EXCEPT ![t] = [st |-> "called", op |-> o, key |-> k, val |-> v, res |-> 0]]
                    /\ UNCHANGED m
Has(k) == k \in DOMAIN m
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
KeySeq == Sorted(SetToSeq(DOMAIN m))
ValSeq == LET ks == SetToSeq(DOMAIN m) IN Sorted([i \in 1..Len(ks) |-> m[ks[i]]])
Result(o, k) == CASE o = "get" -> IF Has(k) THEN m[k] ELSE 0
                  [] o = "has" -> IF Has(k) THEN 1 ELSE 0
                  [] o = "size" -> Cardinality(DOMAIN m)
                  [] o = "keys" -> KeySeq
                  [] o = "values" -> ValSeq
                  [] OTHER -> 0
After(o, k, v) == CASE o = "set" -> [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
                    [] o = "del" -> [x \in DOMAIN m \ {k} |-> m[x]]
                    [] o = "clear" -> <<>>
                    [] OTHER -> m
Effect(t) == /\ op[t].st = "called"
             /\ op' = [op EXCEPT ![t].st = "done", ![t].res = Result(op[t].op, op[t].key)]
             /\ m' = After(op[t].op, op[t].key, op[t].val)
Ret(t, o, r) == /\ op[t].st = "done" /\ op[t].op = o /\ op[t].res = r
                /\ op' = [op EXCEPT ![t] = Idle]
                /\ UNCHANGED m

Next == \E t \in Thr : \/ \E o \in Kinds, k \in Keys, v \in Vals : Call(t, o, k, v)
                       \/ Effect(t)
                       \/ op[t].st = "done" /\ Ret(t, op[t].op, op[t].res)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Effect(t) \/ (op[t].st = "done" /\ Ret(t, op[t].op, op[t].res)))

TypeOK == DOMAIN m \subseteq Keys /\ \A k \in DOMAIN m : m[k] \in Vals
(* each step changes at most what its own operation says *)
Local == [][m' # m => \E t \in Thr : /\ op[t].st = "called" /\ op'[t].st = "done"
                                     /\ m' = After(op[t].op, op[t].key, op[t].val)]_vars
ReadsNeverChange == [][(m' # m) => \E t \in Thr : op[t].st = "called" /\ op[t].op \in {"set", "del", "clear"}]_vars
Returns == \A t \in Thr : []<>(op[t].st = "idle")
=============================================================================
