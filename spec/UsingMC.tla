------------------------------- MODULE UsingMC ------------------------------
EXTENDS Using
CONSTANT MaxUses
VARIABLES n, closed   \* uses begun; closers closed in the outermost use of each thread
mvars == <<op, n, closed>>
LS == {<<>>, <<1>>, <<1, 2>>, <<2, 1, 2>>}
Reset(t) == IF op[t] = <<>> THEN [closed EXCEPT ![t] = <<>>] ELSE closed
MInit == Init /\ n = 0 /\ closed = [t \in Thr |-> <<>>]
Begin(t) == n < MaxUses /\ n' = n + 1 /\ (\E cs \in LS : Call(t, cs)) /\ closed' = Reset(t)
Run(t) == UNCHANGED <<n, closed>> /\ (Body(t) \/ \E p \in BOOLEAN : BodyEnd(t, p))
Clo(t) == UNCHANGED n /\ \E x \in 1..2, f \in BOOLEAN :
            CloseOne(t, x, x, f) /\ closed' = IF Len(op[t]) = 1 THEN [closed EXCEPT ![t] = Append(@, x)] ELSE closed
Out(t) == UNCHANGED <<n, closed>> /\ Busy(t) /\ Ret(t, Top(t).pan, Top(t).errs = <<>>, Top(t).errs)
Work(t) == Run(t) \/ Clo(t) \/ Out(t)
MNext == \E t \in Thr : Begin(t) \/ Work(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Thr : WF_mvars(Work(t))
(* nothing is closed before the body has ended; at the return all is closed *)
NotEarly == \A t \in Thr : (Len(op[t]) = 1 /\ op[t][1].st # "closing") => closed[t] = <<>>
AllClosed == [][\A t \in Thr : (Len(op[t]) = 1 /\ op'[t] = <<>>) => (op[t][1].todo = <<>> /\ closed[t] \in LS)]_mvars
Returns == \A t \in Thr : []<>(op[t] = <<>>)
=============================================================================
