------------------------------ MODULE CloseMgr ------------------------------
(* iox/managerx/closex: Append adds a closer, Close calls Close once on every closer appended so far, in      *)
(* order, one Close at a time, and reports exactly the failures.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Mgrs, Closers, Fails   \* Fails: closers whose Close fails

VARIABLES list,    \* manager -> sequence of closers
          turn,    \* manager -> 0 or the thread whose Close is in effect
          op       \* thread -> [st, op, m, x, todo, errs]
vars == <<list, turn, op>>

Idle == [st |-> "idle", op |-> "", m |-> 0, x |-> 0, todo |-> <<>>, errs |-> <<>>]
Init == list = [m \in Mgrs |-> <<>>] /\ turn = [m \in Mgrs |-> 0] /\ op = [t \in Thr |-> Idle]

CallAppend(t, m, x) == /\ op[t].st = "idle"
                       /\ op' = [op EXCEPT ![t] = [Idle EXCEPT !.st = "called", !.op = "append", !.m = m, !.x = x]]
                       /\ UNCHANGED <<list, turn>>
CallClose(t, m) == /\ op[t].st = "idle"
                   /\ op' = [op EXCEPT ![t] = [Idle EXCEPT !.st = "called", !.op = "close", !.m = m]]
                   /\ UNCHANGED <<list, turn>>
Add(t) == /\ op[t].st = "called" /\ op[t].op = "append"
          /\ list' = [list EXCEPT ![op[t].m] = Append(@, op[t].x)]
          /\ op' = [op EXCEPT ![t].st = "done"]
          /\ UNCHANGED turn
Begin(t) == /\ op[t].st = "called" /\ op[t].op = "close" /\ turn[op[t].m] = 0
            /\ turn' = [turn EXCEPT ![op[t].m] = t]
            /\ op' = [op EXCEPT ![t].st = "closing", ![t].todo = list[op[t].m]]
            /\ UNCHANGED list
(* the closer's own Close runs, failing with error f or not *)
CloseOne(t, x, fails, f) == /\ op[t].st = "closing" /\ op[t].todo # <<>> /\ Head(op[t].todo) = x
                         /\ op' = [op EXCEPT ![t].todo = Tail(@), ![t].errs = IF fails THEN Append(@, f) ELSE @]
                         /\ UNCHANGED <<list, turn>>
Finish(t) == /\ op[t].st = "closing" /\ op[t].todo = <<>>
             /\ turn' = [turn EXCEPT ![op[t].m] = 0]
             /\ op' = [op EXCEPT ![t].st = "done"]
             /\ UNCHANGED list
RetAppend(t) == /\ op[t].st = "done" /\ op[t].op = "append"
                /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<list, turn>>
RetClose(t, isNil, errs) == /\ op[t].st = "done" /\ op[t].op = "close"
                            /\ isNil = (op[t].errs = <<>>) /\ errs = op[t].errs
                            /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<list, turn>>
Internal(t) == Add(t) \/ Begin(t) \/ Finish(t)
Work(t) == Internal(t) \/ (\E x \in Closers : CloseOne(t, x, x \in Fails, x)) \/ RetAppend(t) \/ (op[t].st = "done" /\ RetClose(t, op[t].errs = <<>>, op[t].errs))
=============================================================================
