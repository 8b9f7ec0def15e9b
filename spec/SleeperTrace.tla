----------------------------- MODULE SleeperTrace ---------------------------
(* Histories of the real sleeper against Sleeper.tla.  Aspect: wake (C08), time (C09), all.                   *)
EXTENDS TraceLib
CONSTANT Aspect
VARIABLES tid, l, par, cur, op, now,
          early   \* time aspect: thread -> a wake-up call overlapped its open sleep;  wake aspect: [0] a wake-up was ever called
vars == <<tid, l, par, cur, op, now, early>>
T == 1..9
S == INSTANCE Sleeper WITH Thr <- T
TraceInit == tid \in 1..NTraces /\ l = 1 /\ S!InitWith(Cfg(tid)) /\ early = [t \in 0..9 |-> FALSE]
e == Ev(tid)[l]
Kinds == {"for", "until", "ever"}

(* what the wake aspect forgives: a sleep that lasts too long or too short though nobody ever tried to wake it *)
Forgiven == Aspect = "wake" /\ cur.due # -1
EndF(t) == Forgiven /\ ~early[0] /\ op[t].st = "in"
           /\ cur' = S!NoSleep /\ op' = [op EXCEPT ![t].st = "out", ![t].ok = TRUE] /\ UNCHANGED <<par, now>>
Advance == /\ e.now > now
           /\ IF Aspect = "wake" /\ ~par.slow
              THEN (\A t \in T : op[t].st \in {"idle", "in"}) /\ ~(cur.t # 0 /\ cur.woken) /\ now' = e.now /\ UNCHANGED <<par, cur, op>>
              ELSE S!Advance(e.now)
Internal == S!Internal \/ \E t \in T : EndF(t)
Step == \/ e.k = "call" /\ e.op \in Kinds /\ S!CallSleep(e.t, e.op, e.d) /\ UNCHANGED early
        \/ e.k = "ret" /\ e.op \in Kinds /\ S!RetSleep(e.t, e.op, e.ok) /\ UNCHANGED early
        \/ e.k = "call" /\ e.op = "wake" /\ S!CallWake(e.t) /\ early' = [early EXCEPT ![0] = TRUE]
        \/ e.k = "ret" /\ e.op = "wake" /\ S!RetWake(e.t, e.ok) /\ UNCHANGED early
        \/ e.k = "fin" /\ UNCHANGED <<par, cur, op, now, early>>
Full == \/ e.now <= now /\ Step /\ l' = l + 1
        \/ UNCHANGED <<l, early>> /\ (Internal \/ Advance)

(* ---- durations alone: each sleep for itself ---- *)
Open(t) == op[t].st # "idle"
WakeOpen == \E t \in T : op[t].st = "wake"
Due(t) == op[t].arg
TimeStep ==
  /\ now' = e.now /\ UNCHANGED <<par, cur>>
  /\ \/ /\ e.k = "call" /\ e.op \in Kinds /\ ~Open(e.t)
        /\ op' = [op EXCEPT ![e.t] = [st |-> "in", kind |-> e.op, ok |-> FALSE,
                    arg |-> CASE e.op = "for" -> e.now + S!Max(e.d, 0) [] e.op = "until" -> S!Max(e.d, e.now) [] OTHER -> -1]]
        /\ early' = [early EXCEPT ![e.t] = WakeOpen]
     \/ /\ e.k = "ret" /\ e.op \in Kinds /\ op[e.t].st = "in"
        /\ ("odd" \in DOMAIN e /\ ~early[e.t]) => ~e.ok
        /\ e.ok => \/ par.free
                   \/ early[e.t] /\ (Due(e.t) = -1 \/ par.slow \/ e.now <= Due(e.t))
                   \/ Due(e.t) # -1 /\ (IF par.slow THEN e.now >= Due(e.t) ELSE e.now = Due(e.t))
        /\ op' = [op EXCEPT ![e.t] = S!Idle]
        /\ UNCHANGED early
     \/ /\ e.k = "call" /\ e.op = "wake" /\ ~Open(e.t)
        /\ op' = [op EXCEPT ![e.t].st = "wake"]
        /\ early' = [t \in 0..9 |-> TRUE]
     \/ e.k = "ret" /\ e.op = "wake" /\ op' = [op EXCEPT ![e.t] = S!Idle] /\ UNCHANGED early
     \/ e.k = "fin" /\ UNCHANGED <<op, early>>
     \/ e.k = "hang" /\ (\A t \in T : op[t].st = "in" => Due(t) = -1) /\ UNCHANGED <<op, early>>
TraceNext == /\ l <= Len(Ev(tid)) /\ UNCHANGED tid
             /\ IF Aspect = "time" THEN TimeStep /\ l' = l + 1 ELSE Full
TraceSpec == TraceInit /\ [][TraceNext]_vars
Constr == Accepted(tid, l)
=============================================================================
