----------------------------- MODULE LockTrace -----------------------------
(* Histories of the real Lock against Lock.tla. *)
EXTENDS TraceLib
VARIABLES tid, l, stack, holder, val, ncalls
Big == 1..10
L == INSTANCE Lock WITH Thr <- Big, Ptr <- 0..3, MaxCalls <- 100000
TraceInit == tid \in 1..NTraces /\ l = 1 /\ stack = [t \in Big |-> <<>>] /\ ncalls = 0
             /\ holder = [x \in 0..Cfg(tid).n |-> 0] /\ val = [x \in 0..Cfg(tid).n |-> 0]
Step(e) ==
  \/ e.k = "call" /\ L!Call(e.t, e.x)
  \/ e.k = "enter" /\ e.same /\ L!Enter(e.t, e.x)
  \/ e.k = "exit" /\ L!Exit(e.t, e.x, e.v, e.pan)
  \/ e.k = "ret" /\ L!Ret(e.t, e.x, e.pan)
  \/ e.k = "fin" /\ e.ok /\ (\A t \in Big : ~L!Busy(t)) /\ UNCHANGED <<stack, holder, val, ncalls>>
TraceNext == l <= Len(Ev(tid)) /\ Step(Ev(tid)[l]) /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, stack, holder, val, ncalls>>
Constr == Accepted(tid, l)
MutexT == L!Mutex /\ L!HolderOK
=============================================================================
