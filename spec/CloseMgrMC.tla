----------------------------- MODULE CloseMgrMC -----------------------------
EXTENDS CloseMgr
CONSTANT MaxOps
VARIABLE n
mvars == <<list, turn, op, n>>
New(t) == n < MaxOps /\ n' = n + 1 /\ \E m \in Mgrs : CallClose(t, m) \/ \E x \in Closers : CallAppend(t, m, x)
MInit == Init /\ n = 0
MNext == \E t \in Thr : New(t) \/ (Work(t) /\ UNCHANGED n)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Thr : WF_mvars(Work(t) /\ UNCHANGED n) /\ SF_mvars(Begin(t) /\ UNCHANGED n)
OneAtATime == \A s, t \in Thr : (op[s].st = "closing" /\ op[t].st = "closing" /\ op[s].m = op[t].m) => s = t
(* at any moment of a Close: what is done and what is to do make up a prefix of the list, failures in order *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Ordered == \A t \in Thr : op[t].st = "closing" =>
             \E k \in 0..Len(list[op[t].m]) : Prefix(op[t].todo, SubSeq(list[op[t].m], k + 1, Len(list[op[t].m])))
OnlyFailures == \A t \in Thr : \A i \in 1..Len(op[t].errs) : op[t].errs[i] \in Fails
ListGrows == [][\A m \in Mgrs : Prefix(list[m], list'[m])]_mvars
Returns == \A t \in Thr : []<>(op[t].st = "idle")
=============================================================================
