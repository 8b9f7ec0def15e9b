------------------------------ MODULE WalkTrace ------------------------------
(* Runs of the real commands. *)
EXTENDS Walk, TraceLib
VARIABLES tid, l
Set(s) == {s[i] : i \in 1..Len(s)}
e == Ev(tid)[l]
TraceInit == /\ tid \in 1..NTraces /\ l = 1
             /\ InitWith(Set(Cfg(tid).tree), Set(Cfg(tid).noread), Set(Cfg(tid).noenter))
TraceNext == /\ l <= Len(Ev(tid)) /\ l' = l + 1 /\ UNCHANGED tid
             /\ \/ e.k = "run" /\ e.a = Cfg(tid).args /\ Run(e.p, e.h)
                \/ e.k = "end" /\ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<wvars, tid, l>>
Constr == Accepted(tid, l)
=============================================================================
