------------------------------ MODULE Sleeper -------------------------------
(* timex/sleepx.Sleeper: one sleep at a time, ended by its time or by a wake-up.                              *)
(* par: [slow, free]: slow: time may pass while something could run (no upper bounds on delays); free: the    *)
(* clock is not observed at all (native runs), a sleep with a time may end at any moment.                     *)
(* Times count in any unit; due = -1 means never.                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr

VARIABLES par,
          cur,  \* the sleep in progress: [t, due, woken], t = 0 if none
          op,   \* thread -> [st, kind, arg, ok]
          now
vars == <<par, cur, op, now>>

NoSleep == [t |-> 0, due |-> -1, woken |-> FALSE]
Idle == [st |-> "idle", kind |-> "", arg |-> 0, ok |-> FALSE]
InitWith(p) == par = p /\ cur = NoSleep /\ op = [t \in Thr |-> Idle] /\ now = 0

Max(a, b) == IF a > b THEN a ELSE b
(* when a sleep called now ends by itself; when time passes before it is in progress, the earliest moment counts *)
DueAt(kind, arg) == CASE kind = "for" -> now + Max(arg, 0)
                      [] kind = "until" -> Max(arg, now)
                      [] kind = "ever" -> -1

CallSleep(t, kind, arg) == /\ op[t].st = "idle"
                           /\ op' = [op EXCEPT ![t] = [st |-> "want", kind |-> kind, arg |-> DueAt(kind, arg), ok |-> FALSE]]
                           /\ UNCHANGED <<par, cur, now>>
Claim(t) == /\ op[t].st = "want" /\ cur.t = 0
            /\ cur' = [t |-> t, due |-> op[t].arg, woken |-> FALSE]
            /\ op' = [op EXCEPT ![t].st = "in"]
            /\ UNCHANGED <<par, now>>
Refuse(t) == /\ op[t].st = "want" /\ cur.t # 0
             /\ op' = [op EXCEPT ![t].st = "out", ![t].ok = FALSE]
             /\ UNCHANGED <<par, cur, now>>
Over == cur.woken \/ (cur.due # -1 /\ (par.free \/ now >= cur.due))
End(t) == /\ op[t].st = "in" /\ Over
          /\ cur' = NoSleep
          /\ op' = [op EXCEPT ![t].st = "out", ![t].ok = TRUE]
          /\ UNCHANGED <<par, now>>
RetSleep(t, kind, ok) == /\ op[t].st = "out" /\ op[t].kind = kind /\ op[t].ok = ok
                         /\ op' = [op EXCEPT ![t] = Idle]
                         /\ UNCHANGED <<par, cur, now>>

CallWake(t) == /\ op[t].st = "idle"
               /\ op' = [op EXCEPT ![t] = [st |-> "wake", kind |-> "wake", arg |-> 0, ok |-> FALSE]]
               /\ UNCHANGED <<par, cur, now>>
TakeWake(t) == /\ op[t].st = "wake"
               /\ op' = [op EXCEPT ![t].st = "woke", ![t].ok = (cur.t # 0)]
               /\ cur' = IF cur.t # 0 THEN [cur EXCEPT !.woken = TRUE] ELSE cur
               /\ UNCHANGED <<par, now>>
RetWake(t, ok) == /\ op[t].st = "woke" /\ op[t].ok = ok
                  /\ op' = [op EXCEPT ![t] = Idle]
                  /\ UNCHANGED <<par, cur, now>>

Settled == /\ \A t \in Thr : op[t].st \in {"idle", "in"}
           /\ cur.t # 0 => ~Over
Advance(to) == /\ to > now
               /\ ~par.slow => (Settled /\ (cur.t # 0 /\ cur.due # -1 => to <= cur.due))
               /\ now' = to
               /\ UNCHANGED <<par, cur, op>>
Internal == \E t \in Thr : Claim(t) \/ Refuse(t) \/ End(t) \/ TakeWake(t)

(* ---- properties ---- *)
OneSleep == \A t \in Thr : (op[t].st = "in") = (cur.t = t)
Punctual == (~par.slow /\ ~par.free /\ cur.t # 0 /\ cur.due # -1) => now <= cur.due
(* a sleep ends only because it was woken or its time has come, and no sleep inherits a wake-up *)
EndsRight == [][(cur.t # 0 /\ cur'.t # cur.t) => (cur'.t = 0 /\ Over)]_vars
FreshSleep == [][(cur.t = 0 /\ cur'.t # 0) => ~cur'.woken]_vars
WokenReturns == \A t \in Thr : [](cur.t = t /\ cur.woken => <>(op[t].st = "idle"))
=============================================================================
