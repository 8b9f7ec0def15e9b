------------------------------- MODULE ConvReg ------------------------------
(* typex/convx: one atomic table from pairs of types to converters.  A conversion looks its pair up once and  *)
(* then applies what it found, outside the table, so that a converter may use the registry itself.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Pairs, Convs, Vals

VARIABLES tbl,  \* pair -> converter, 0 if none
          op    \* thread -> [st: "idle" | "called" | "found" | "done", op, p, arg, or, conv, ok, res]
vars == <<tbl, op>>

Idle == [st |-> "idle", op |-> "", p |-> 0, arg |-> 0, or |-> 0, conv |-> 0, ok |-> FALSE, res |-> 0]
Init == tbl = [p \in Pairs |-> 0] /\ op = [t \in Thr |-> Idle]
Apply(c, v) == IF c >= 90 THEN 0 ELSE 1000 * c + v   \* what converter c makes of v

Call(t, o, p, a, alt) == /\ op[t].st = "idle"
                         /\ op' = [op EXCEPT ![t] = [Idle EXCEPT !.st = "called", !.op = o, !.p = p, !.arg = a, !.or = alt]]
                         /\ UNCHANGED tbl
Set(t, p, c) == tbl' = [tbl EXCEPT ![p] = c] /\ op' = [op EXCEPT ![t].st = "done"]
Effect(t) ==
  /\ op[t].st = "called"
  /\ LET o == op[t] IN
     CASE o.op = "reg" -> Set(t, o.p, o.arg)
       [] o.op = "unreg" -> Set(t, o.p, 0)
       [] o.op = "exists" -> /\ op' = [op EXCEPT ![t].st = "done", ![t].ok = (tbl[o.p] # 0)]
                             /\ UNCHANGED tbl
       [] OTHER -> /\ op' = [op EXCEPT ![t] = IF tbl[o.p] # 0 THEN [o EXCEPT !.st = "found", !.conv = tbl[o.p]]
                                              ELSE [o EXCEPT !.st = "done", !.res = IF o.op = "intoor" THEN o.or ELSE 0]]
                   /\ UNCHANGED tbl
Convert(t, c, v) == /\ op[t].st = "found" /\ op[t].conv = c /\ op[t].arg = v
                    /\ op' = [op EXCEPT ![t].st = "done", ![t].ok = TRUE, ![t].res = Apply(c, v)]
                    /\ UNCHANGED tbl
(* IntoOr does not report success *)
Ret(t, o, ok, r) == /\ op[t].st = "done" /\ op[t].op = o
                    /\ (o # "intoor" => op[t].ok = ok) /\ op[t].res = r
                    /\ op' = [op EXCEPT ![t] = Idle]
                    /\ UNCHANGED tbl

Work(t) == Effect(t) \/ Convert(t, op[t].conv, op[t].arg) \/ (op[t].st = "done" /\ Ret(t, op[t].op, op[t].ok, op[t].res))
Next == \E t \in Thr : \/ \E p \in Pairs, c \in Convs : Call(t, "reg", p, c, 0)
                       \/ \E p \in Pairs, o \in {"unreg", "exists"} : Call(t, o, p, 0, 0)
                       \/ \E p \in Pairs, v \in Vals : Call(t, "into", p, v, 0) \/ Call(t, "intoor", p, v, 7)
                       \/ Work(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Work(t))

OwnPair == [][\A p \in Pairs : tbl'[p] # tbl[p] => \E t \in Thr : op[t].st = "called" /\ op[t].p = p /\ op[t].op \in {"reg", "unreg"}]_vars
(* what a conversion applies was registered for its pair when it looked *)
Found == [][\A t \in Thr : (op[t].st = "called" /\ op'[t].st = "found") => tbl[op[t].p] = op'[t].conv]_vars
NoBlock == \A t \in Thr : []<>(op[t].st = "idle")
=============================================================================
