------------------------------ MODULE SleeperMC -----------------------------
EXTENDS Sleeper
CONSTANTS MaxTime, MaxOps, Slow
VARIABLE nops
mvars == <<par, cur, op, now, nops>>
Env(t) == /\ nops < MaxOps /\ nops' = nops + 1
          /\ \/ \E k \in {"for", "until"}, a \in -1..2 : CallSleep(t, k, a)
             \/ CallSleep(t, "ever", 0)
             \/ CallWake(t)
Work(t) == UNCHANGED nops /\ (Claim(t) \/ Refuse(t) \/ End(t) \/ TakeWake(t)
             \/ (\E k \in {"for", "until", "ever"}, b \in BOOLEAN : RetSleep(t, k, b)) \/ \E b \in BOOLEAN : RetWake(t, b))
Tick == now < MaxTime /\ Advance(now + 1) /\ UNCHANGED nops
MInit == InitWith([slow |-> Slow, free |-> FALSE]) /\ nops = 0
MNext == Tick \/ \E t \in Thr : Env(t) \/ Work(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Thr : WF_mvars(Work(t))
=============================================================================
