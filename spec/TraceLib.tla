------------------------------ MODULE TraceLib ------------------------------
(* Common part of the trace specifications.  A trace is a record [cfg, ev]: the parameters of the scenario    *)
(* and the sequence of events the real code produced.  A trace specification reuses the actions of the        *)
(* component's specification; TLC explores every explanation of every trace, and prints <<"A", tid>> for each *)
(* trace it can explain to the end.                                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")
NTraces == Len(Traces)
Ev(tid) == Traces[tid].ev
Cfg(tid) == Traces[tid].cfg

(* Threads of a trace. *)
Threads(tid) == {Ev(tid)[i].t : i \in 1..Len(Ev(tid))}

Accepted(tid, l) == l > Len(Ev(tid)) => PrintT(<<"A", tid>>)

IsReal(tid, l, k) == l <= Len(Ev(tid)) /\ Ev(tid)[l].k = k
=============================================================================
