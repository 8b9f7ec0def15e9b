---- MODULE ConvertTrace ----
(* As SeqTrace, but a result may be left open; the conversion must exist all the same. *)
EXTENDS Convert, TraceLib
VARIABLES tid, l, st
TraceInit == tid \in 1..NTraces /\ l = 1 /\ st = Start
Agree(x, r) == x = r \/ (x.k = "any" /\ r.k # "missing")
TraceNext == /\ l <= Len(Ev(tid))
             /\ Ev(tid)[l].k = "op"
             /\ \E x \in Do(st, Ev(tid)[l].o) : Agree(x.r, Ev(tid)[l].r) /\ st' = x.st
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
Constr == Accepted(tid, l)
====
