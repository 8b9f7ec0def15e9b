----------------------------- MODULE KillSigTrace ---------------------------
EXTENDS TraceLib
VARIABLES tid, l, reg
vars == <<tid, l, reg>>
S == INSTANCE KillSig WITH Regs <- 1..4, Kill <- {"INT", "QUIT", "TERM"}, Other <- {"WINCH", "URG"}
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!Init
e == Ev(tid)[l]
(* idle: a pause long enough for a second run of a handler to show *)
Step == \/ e.k = "reg" /\ S!Register(e.r)
        \/ e.k = "send" /\ S!Send(e.s)
        \/ e.k = "hs" /\ S!Start(e.r)
        \/ e.k = "he" /\ S!End(e.r)
        \/ e.k = "poll" /\ S!Poll(e.r, e.closed)
        \/ e.k = "wait" /\ e.ok /\ S!Poll(e.r, TRUE)
        \/ e.k = "idle" /\ UNCHANGED reg
        \/ e.k = "fin" /\ UNCHANGED reg
TraceNext == /\ l <= Len(Ev(tid)) /\ UNCHANGED tid
             /\ \/ Step /\ l' = l + 1
                \/ UNCHANGED l /\ \E r \in 1..4 : S!Close(r)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
