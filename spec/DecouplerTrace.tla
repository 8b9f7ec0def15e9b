--------------------------- MODULE DecouplerTrace ---------------------------
(* Histories of the real decoupler against Decoupler.tla.  Aspect selects which property's obligations are    *)
(* enforced; those of the others are relaxed, so that a check reports only its own property.                  *)
(*  deliver: what is shown, and in which order.   drop: when Write may drop, and what it returns.             *)
(*  progress: every call returns, Next finds a message exactly when there is one.   all: everything.          *)
EXTENDS TraceLib
CONSTANT Aspect
VARIABLES tid, l, par, q, op, nw
vars == <<tid, l, par, q, op, nw>>
T == 0..9
C == par
DropN(id) == 100 + id
DropErr(id) == IF id % 2 = 1 THEN "E" ELSE ""
D == INSTANCE Decoupler WITH Thr <- T, Msgs <- {}, Pars <- {}, MaxWrites <- 1000
TraceInit == tid \in 1..NTraces /\ l = 1 /\ par = Cfg(tid) /\ q = <<>> /\ op = [t \in T |-> D!Idle] /\ nw = 0

All(a) == Aspect \in {a, "all"}
Pending(t) == op[t].st # "idle"

(* relaxed variants of the internal steps *)
Accept(t) == IF All("drop") THEN D!Accept(t)
             ELSE op[t].st = "write" /\ op[t].m.len > 0 /\ q' = Append(q, op[t].m) /\ op' = [op EXCEPT ![t].st = "accepted"] /\ UNCHANGED <<par, nw>>
Drop(t) == IF All("drop") THEN D!Drop(t)
           ELSE op[t].st = "write" /\ op' = [op EXCEPT ![t].st = IF C.nildrop THEN "dropped" ELSE "dropping"] /\ UNCHANGED <<par, q, nw>>
None(t) == IF All("progress") THEN D!None(t)
           ELSE op[t].st = "next" /\ op' = [op EXCEPT ![t].st = "none"] /\ UNCHANGED <<par, q, nw>>
ViewStart(t, id) == IF All("deliver") \/ All("progress") THEN D!ViewStart(t, id)
                    ELSE op[t].st = "next" /\ op' = [op EXCEPT ![t].st = "viewing", ![t].id = id] /\ UNCHANGED <<par, q, nw>>
ViewEnd(t, id) == IF All("deliver") THEN D!ViewEnd(t, id)
                  ELSE op[t].st = "viewing" /\ op' = [op EXCEPT ![t].st = "viewed"] /\ UNCHANGED <<par, q, nw>>
Take(t) == /\ op[t].st \in {"viewing", "viewed"}
           /\ q' = IF q = <<>> THEN q ELSE Tail(q)
           /\ op' = [op EXCEPT ![t].st = "taken"]
           /\ UNCHANGED <<par, nw>>
TakeSilent(t) == IF All("deliver") \/ All("progress") THEN D!TakeSilent(t)
                 ELSE op[t].st = "next" /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ op' = [op EXCEPT ![t].st = "taken"] /\ UNCHANGED <<par, nw>>
RetWrite(t, n, err) == IF All("drop") THEN D!RetWrite(t, n, err)
                       ELSE op[t].st \in {"accepted", "dropped"} /\ op' = [op EXCEPT ![t] = D!Idle] /\ UNCHANGED <<par, q, nw>>
RetNext(t, ok) == D!RetNext(t, ok)

Internal == \E t \in T : Accept(t) \/ Drop(t) \/ None(t) \/ TakeSilent(t) \/ Take(t)
Same == UNCHANGED <<par, q, op, nw>>

Hang == \/ Aspect = "deliver" /\ ~(q # <<>> /\ \E t \in T : op[t].st \in {"next", "viewing"})
        \/ Aspect = "drop" /\ ~(\E t \in T : op[t].st \in {"write", "dropping"})

(* n messages m, m+1, ... written one after the other by a lone thread; ids: the accepted ones.  n times Next  *)
(* until there is none; ids: the messages shown.                                                              *)
Least(a, b) == IF a < b THEN a ELSE b
Alone == \A t \in T : ~Pending(t)
BulkW(e) == /\ Alone
            /\ All("drop") => e.ok /\ e.ids = [i \in 1..Least(e.n, C.cap - Len(q)) |-> e.m + i - 1]
            /\ q' = q \o [i \in 1..Len(e.ids) |-> [id |-> e.ids[i], len |-> 8]]
            /\ UNCHANGED <<par, op, nw>>
BulkN(e) == /\ Alone
            /\ All("progress") => Len(e.ids) = Least(e.n, Len(q))
            /\ All("deliver") => Len(e.ids) <= Len(q) /\ e.ids = [i \in 1..Len(e.ids) |-> q[i].id]
            /\ q' = SubSeq(q, Least(Len(e.ids), Len(q)) + 1, Len(q))
            /\ UNCHANGED <<par, op, nw>>

Step(e) ==
  \/ e.k = "call" /\ e.op = "write" /\ D!CallWrite(e.t, [id |-> e.m, len |-> e.len])
  \/ e.k = "call" /\ e.op = "next" /\ D!CallNext(e.t)
  \/ e.k = "drop" /\ D!DropFn(e.t, e.m)
  \/ e.k = "vs" /\ ViewStart(e.t, e.m)
  \/ e.k = "ve" /\ ViewEnd(e.t, e.m)
  \/ e.k = "vcopy" /\ (e.ok \/ ~All("deliver")) /\ Same
  \/ e.k = "ret" /\ e.op = "write" /\ RetWrite(e.t, e.n, e.err)
  \/ e.k = "ret" /\ e.op = "next" /\ RetNext(e.t, e.ok)
  \/ e.k = "bulkw" /\ BulkW(e)
  \/ e.k = "bulkn" /\ BulkN(e)
  \/ e.k = "fin" /\ (q = <<>> \/ ~(All("deliver") \/ All("progress"))) /\ (\A t \in T : ~Pending(t)) /\ Same
  \/ e.k = "hang" /\ Hang /\ Same
(* Internal steps are taken only when the next event needs them: before a return or a callback. *)
Lazy == Ev(tid)[l].k \in {"ret", "vs", "drop", "fin", "hang"}
TraceNext == /\ l <= Len(Ev(tid))
             /\ UNCHANGED tid
             /\ \/ Step(Ev(tid)[l]) /\ l' = l + 1
                \/ Lazy /\ Internal /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
