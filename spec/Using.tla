-------------------------------- MODULE Using -------------------------------
(* iox/usingx.Close: a use runs its body once, then closes every closer of its list once, in order, whether   *)
(* or not closers fail or the body panics, and then returns exactly the failures or passes the panic on.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Lists  \* Lists: list number -> sequence of closers

VARIABLES op   \* thread -> stack of open uses [st: "start" | "body" | "closing", list, todo, errs, pan], innermost last
vars == <<op>>

Init == op = [t \in Thr |-> <<>>]
Top(t) == op[t][Len(op[t])]
Busy(t) == op[t] # <<>>
SetTop(t, r) == op' = [op EXCEPT ![t][Len(op[t])] = r]
(* a use begins; inside another one only from its body *)
Call(t, cs) == /\ Busy(t) => Top(t).st = "body"
               /\ op' = [op EXCEPT ![t] = Append(@, [st |-> "start", todo |-> cs, errs |-> <<>>, pan |-> FALSE])]
Body(t) == Busy(t) /\ Top(t).st = "start" /\ SetTop(t, [Top(t) EXCEPT !.st = "body"])
BodyEnd(t, pan) == Busy(t) /\ Top(t).st = "body" /\ SetTop(t, [Top(t) EXCEPT !.st = "closing", !.pan = pan])
CloseOne(t, x, id, fails) == /\ Busy(t) /\ Top(t).st = "closing" /\ Top(t).todo # <<>> /\ Head(Top(t).todo) = x
                             /\ SetTop(t, [Top(t) EXCEPT !.todo = Tail(@), !.errs = IF fails THEN Append(@, id) ELSE @])
Ret(t, pan, isNil, errs) == /\ Busy(t) /\ Top(t).st = "closing" /\ Top(t).todo = <<>>
                            /\ pan = Top(t).pan
                            /\ ~pan => (errs = Top(t).errs /\ isNil = (errs = <<>>))
                            /\ op' = [op EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
