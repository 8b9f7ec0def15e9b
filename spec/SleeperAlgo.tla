----------------------------- MODULE SleeperAlgo -----------------------------
(* timex/sleepx.Sleeper step by step: a flag and a wake-up signal under one mutex.  Every wake-up cancels the  *)
(* present signal and makes a new one; a sleep waits on the signal it met when it began.  Checked to refine    *)
(* Sleeper.tla.                                                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Thr, MaxTime, MaxOps, Slow

VARIABLES slept, gen, cancelled,   \* the flag, the number of the present signal, the signals cancelled
          sig, due, pc, op, now, nops
avars == <<slept, gen, cancelled, sig, due, pc, op, now, nops>>
par == [slow |-> Slow, free |-> FALSE]
Idle == [st |-> "idle", kind |-> "", arg |-> 0, ok |-> FALSE]

AInit == /\ slept = FALSE /\ gen = 0 /\ cancelled = {}
         /\ sig = [t \in Thr |-> 0] /\ due = [t \in Thr |-> -1]
         /\ pc = [t \in Thr |-> "idle"] /\ op = [t \in Thr |-> Idle] /\ now = 0 /\ nops = 0

(* the sleep in progress, seen from outside: from begin() to end() *)
Sleeping == {t \in Thr : pc[t] \in {"begun", "select", "end"}}
Cur == IF Sleeping = {} THEN [t |-> 0, due |-> -1, woken |-> FALSE]
       ELSE LET t == CHOOSE t \in Sleeping : TRUE
            IN [t |-> t, due |-> op[t].arg, woken |-> sig[t] \in cancelled]
S == INSTANCE Sleeper WITH cur <- Cur

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t, kind, arg) == /\ pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1
                      /\ op' = [op EXCEPT ![t] = [st |-> "want", kind |-> kind, arg |-> S!DueAt(kind, arg), ok |-> FALSE]]
                      /\ Go(t, "begin") /\ UNCHANGED <<slept, gen, cancelled, sig, due, now>>
Begin(t) == /\ pc[t] = "begin"
            /\ IF slept THEN Go(t, "ret") /\ op' = [op EXCEPT ![t].st = "out", ![t].ok = FALSE] /\ UNCHANGED <<slept, sig>>
               ELSE slept' = TRUE /\ sig' = [sig EXCEPT ![t] = gen] /\ Go(t, "begun") /\ op' = [op EXCEPT ![t].st = "in"]
            /\ UNCHANGED <<gen, cancelled, due, now, nops>>
(* the timer starts: for an interval from now on, for a moment at the earliest now *)
Timer(t) == /\ pc[t] = "begun"
            /\ \E late \in 0..(IF Slow /\ op[t].kind = "for" THEN 1 ELSE 0) : due' = [due EXCEPT ![t] = op[t].arg + late]
            /\ Go(t, "select") /\ UNCHANGED <<slept, gen, cancelled, sig, op, now, nops>>
Select(t) == /\ pc[t] = "select"
             /\ (due[t] # -1 /\ now >= due[t]) \/ sig[t] \in cancelled
             /\ Go(t, "end") /\ UNCHANGED <<slept, gen, cancelled, sig, due, op, now, nops>>
End(t) == /\ pc[t] = "end" /\ slept' = FALSE /\ Go(t, "ret")
          /\ op' = [op EXCEPT ![t].st = "out", ![t].ok = TRUE]
          /\ UNCHANGED <<gen, cancelled, sig, due, now, nops>>
Wake(t) == /\ pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1
           /\ op' = [op EXCEPT ![t] = [st |-> "wake", kind |-> "wake", arg |-> 0, ok |-> FALSE]]
           /\ Go(t, "wake") /\ UNCHANGED <<slept, gen, cancelled, sig, due, now>>
Cancel(t) == /\ pc[t] = "wake" /\ Go(t, "ret")
             /\ op' = [op EXCEPT ![t].st = "woke", ![t].ok = slept]
             /\ IF slept THEN cancelled' = cancelled \cup {gen} /\ gen' = gen + 1 ELSE UNCHANGED <<cancelled, gen>>
             /\ UNCHANGED <<slept, sig, due, now, nops>>
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle") /\ op' = [op EXCEPT ![t] = Idle]
          /\ UNCHANGED <<slept, gen, cancelled, sig, due, now, nops>>
Work(t) == Begin(t) \/ Timer(t) \/ Select(t) \/ End(t) \/ Cancel(t) \/ Ret(t)
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ ~Slow => \A t \in Thr : /\ pc[t] \in {"idle", "select"}
                                   /\ pc[t] = "select" => (sig[t] \notin cancelled /\ (due[t] # -1 => now < due[t]))
        /\ UNCHANGED <<slept, gen, cancelled, sig, due, pc, op, nops>>
ANext == Tick \/ \E t \in Thr : \/ \E k \in {"for", "until"}, a \in -1..2 : Call(t, k, a)
                                \/ Call(t, "ever", 0) \/ Wake(t) \/ Work(t)
ASpec == AInit /\ [][ANext]_avars /\ \A t \in Thr : WF_avars(Work(t))

SNext == \/ \E to \in 0..MaxTime : S!Advance(to)
         \/ \E t \in Thr : \/ \E k \in {"for", "until", "ever"}, a \in -1..2 : S!CallSleep(t, k, a)
                           \/ S!CallWake(t) \/ S!Claim(t) \/ S!Refuse(t) \/ S!End(t) \/ S!TakeWake(t)
                           \/ \E k \in {"for", "until", "ever"}, b \in BOOLEAN : S!RetSleep(t, k, b)
                           \/ \E b \in BOOLEAN : S!RetWake(t, b)
Refines == S!InitWith(par) /\ [][SNext]_<<Cur, op, now>>
FlagOK == slept = (Sleeping # {}) /\ Cardinality(Sleeping) <= 1
WokenReturns == \A t \in Thr : [](t \in Sleeping /\ sig[t] \in cancelled => <>(op[t].st = "idle"))
=============================================================================
