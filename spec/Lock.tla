-------------------------------- MODULE Lock --------------------------------
(* syncx/lockx.Lock: mutual exclusion per pointer.  A call is made (Call), runs its function exactly once     *)
(* while it is the only one inside for that pointer (Enter .. Exit), and returns (Ret).  The pointee carries  *)
(* a counter that each function reads and increments non-atomically, so that a missed update or a stale read  *)
(* is visible.  Calls may be nested: a thread keeps a stack of its open calls.                                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Thr, Ptr, MaxCalls

VARIABLES stack,   \* thread -> sequence of [x, st, pan], innermost call last; st: "called", "in", "out"
          holder,  \* pointer -> 0 (free) or the thread inside
          val,     \* pointer -> value of its counter
          ncalls   \* calls made so far (bounds the exhaustive model)
vars == <<stack, holder, val, ncalls>>

Init == /\ stack = [t \in Thr |-> <<>>]
        /\ holder = [x \in Ptr |-> 0]
        /\ val = [x \in Ptr |-> 0]
        /\ ncalls = 0

Top(t) == stack[t][Len(stack[t])]
Busy(t) == Len(stack[t]) > 0
SetTop(t, r) == stack' = [stack EXCEPT ![t][Len(stack[t])] = r]

(* A call; inside a function only of a pointer the thread does not hold already. *)
Call(t, x) == /\ Busy(t) => Top(t).st = "in"
              /\ stack' = [stack EXCEPT ![t] = Append(@, [x |-> x, st |-> "called", pan |-> FALSE])]
              /\ ncalls' = ncalls + 1
              /\ UNCHANGED <<holder, val>>

Enter(t, x) == /\ Busy(t) /\ Top(t).st = "called" /\ Top(t).x = x
               /\ holder[x] = 0
               /\ holder' = [holder EXCEPT ![x] = t]
               /\ SetTop(t, [Top(t) EXCEPT !.st = "in"])
               /\ UNCHANGED <<val, ncalls>>

(* The function returns or panics after having incremented the counter it read as v. *)
Exit(t, x, v, pan) == /\ Busy(t) /\ Top(t).st = "in" /\ Top(t).x = x
                      /\ holder[x] = t
                      /\ v = val[x]
                      /\ val' = [val EXCEPT ![x] = v + 1]
                      /\ holder' = [holder EXCEPT ![x] = 0]
                      /\ SetTop(t, [Top(t) EXCEPT !.st = "out", !.pan = pan])
                      /\ UNCHANGED ncalls

Ret(t, x, pan) == /\ Busy(t) /\ Top(t).st = "out" /\ Top(t).x = x /\ Top(t).pan = pan
                  /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                  /\ UNCHANGED <<holder, val, ncalls>>

(* For the exhaustive model pointers are locked in ascending order, so that nesting cannot deadlock. *)
OpenPtrs(t) == {stack[t][i].x : i \in 1..Len(stack[t])}
Progress(t) == \/ \E x \in Ptr : Enter(t, x)
               \/ \E x \in Ptr, pan \in BOOLEAN : Exit(t, x, val[x], pan)
               \/ \E x \in Ptr, pan \in BOOLEAN : Ret(t, x, pan)
NewCall(t) == ncalls < MaxCalls /\ \E x \in Ptr : (\A y \in OpenPtrs(t) : y < x) /\ Call(t, x)
Next == \E t \in Thr : NewCall(t) \/ Progress(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Progress(t))

InFor(t, x) == \E i \in 1..Len(stack[t]) : stack[t][i].x = x /\ stack[t][i].st = "in"
Mutex == \A s, t \in Thr, x \in Ptr : (InFor(s, x) /\ InFor(t, x)) => s = t
HolderOK == \A x \in Ptr : holder[x] # 0 => InFor(holder[x], x)
(* What one function wrote the next one sees: the counter never loses an update. *)
NoLostUpdate == [][\A x \in Ptr : val'[x] \in {val[x], val[x] + 1}]_vars
EveryCallReturns == \A t \in Thr : []<>(~Busy(t))
=============================================================================
