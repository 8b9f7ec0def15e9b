------------------------------ MODULE LockAlgo ------------------------------
(* syncx/lockx.Lock step by step: a call spins until it has put its pointer into the table of held pointers,   *)
(* runs the function, and takes the pointer out again, also when the function panics.  Refines Lock.tla.       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Thr, Ptr, MaxCalls
VARIABLES held, stack, val, reg, ncalls   \* reg: what the running function has read of the counter
avars == <<held, stack, val, reg, ncalls>>
Unread == MaxCalls + 1
(* call records: [x, pc, pan]; pc: "spin", "in", "unlock", "ret" *)
AInit == held = {} /\ stack = [t \in Thr |-> <<>>] /\ val = [x \in Ptr |-> 0] /\ reg = [t \in Thr |-> [x \in Ptr |-> Unread]] /\ ncalls = 0
Top(t) == stack[t][Len(stack[t])]
Busy(t) == stack[t] # <<>>
Pc(t) == IF Busy(t) THEN Top(t).pc ELSE "idle"
To(t, l) == stack' = [stack EXCEPT ![t][Len(stack[t])].pc = l]

AbsStack == [t \in Thr |-> [i \in 1..Len(stack[t]) |->
               [x |-> stack[t][i].x, pan |-> stack[t][i].pan,
                st |-> CASE stack[t][i].pc = "spin" -> "called" [] stack[t][i].pc = "in" -> "in" [] OTHER -> "out"]]]
AbsHolder == [x \in Ptr |-> LET in == {t \in Thr : \E i \in 1..Len(stack[t]) : stack[t][i].x = x /\ stack[t][i].pc = "in"}
                            IN IF in = {} THEN 0 ELSE CHOOSE t \in in : TRUE]
L == INSTANCE Lock WITH stack <- AbsStack, holder <- AbsHolder

Call(t, x) == /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
              /\ Pc(t) \in {"idle", "in"} /\ \A i \in 1..Len(stack[t]) : x > stack[t][i].x
              /\ stack' = [stack EXCEPT ![t] = Append(@, [x |-> x, pc |-> "spin", pan |-> FALSE])]
              /\ UNCHANGED <<held, val, reg>>
LoadOrStore(t) == /\ Pc(t) = "spin" /\ Top(t).x \notin held
                  /\ held' = held \cup {Top(t).x} /\ To(t, "in")
                  /\ UNCHANGED <<val, reg, ncalls>>
Read(t) == /\ Pc(t) = "in" /\ reg[t][Top(t).x] = Unread
           /\ reg' = [reg EXCEPT ![t][Top(t).x] = val[Top(t).x]] /\ UNCHANGED <<held, stack, val, ncalls>>
Write(t) == /\ Pc(t) = "in" /\ reg[t][Top(t).x] # Unread
            /\ val' = [val EXCEPT ![Top(t).x] = reg[t][Top(t).x] + 1]
            /\ reg' = [reg EXCEPT ![t][Top(t).x] = Unread]
            /\ \E pan \in BOOLEAN : stack' = [stack EXCEPT ![t][Len(stack[t])].pc = "unlock", ![t][Len(stack[t])].pan = pan]
            /\ UNCHANGED <<held, ncalls>>
Delete(t) == /\ Pc(t) = "unlock" /\ held' = held \ {Top(t).x} /\ To(t, "ret") /\ UNCHANGED <<val, reg, ncalls>>
Ret(t) == /\ Pc(t) = "ret" /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<held, val, reg, ncalls>>
AStep(t) == LoadOrStore(t) \/ Read(t) \/ Write(t) \/ Delete(t) \/ Ret(t)
ANext == \E t \in Thr : (\E x \in Ptr : Call(t, x)) \/ AStep(t)
ASpec == AInit /\ [][ANext]_avars /\ \A t \in Thr : WF_avars(AStep(t))
(* the abstract model locks in descending order of its own; only its steps matter here *)
LStep == \E t \in Thr : L!Progress(t) \/ (\E x \in Ptr : L!Call(t, x))
Refines == L!Init /\ [][LStep]_<<AbsStack, AbsHolder, val, ncalls>>
HeldOK == \A x \in Ptr : (x \in held) = (\E t \in Thr : \E i \in 1..Len(stack[t]) : stack[t][i].x = x /\ stack[t][i].pc \in {"in", "unlock"})
Mutex == L!Mutex
AllReturn == \A t \in Thr : []<>(stack[t] = <<>>)
=============================================================================
