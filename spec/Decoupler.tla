----------------------------- MODULE Decoupler -----------------------------
(* iox/decouplex at the level of its interface: a bounded FIFO of messages with any number of writers and one *)
(* reader at a time.  Write accepts a message or drops it; the step in which it takes effect (Accept, Drop)   *)
(* lies between call and return.  Next shows the oldest message and removes it, or reports that there is none.*)
(* Messages are records [id, len]; len = 0 is the empty message.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Msgs, Pars, DropN(_), DropErr(_), MaxWrites

VARIABLES par,      \* [cap, nildrop]: capacity; whether there is no drop function
          q,        \* accepted, unread messages, oldest first
          op,       \* thread -> what it is doing
          nw        \* writes started (bounds the exhaustive model)
vars == <<par, q, op, nw>>
Cap == par.cap
NilDrop == par.nildrop

Idle == [st |-> "idle"]
Init == par \in Pars /\ q = <<>> /\ op = [t \in Thr |-> Idle] /\ nw = 0

(* ---- Write ---- *)
CallWrite(t, m) == /\ op[t].st = "idle"
                   /\ op' = [op EXCEPT ![t] = [st |-> "write", m |-> m]]
                   /\ nw' = nw + 1
                   /\ UNCHANGED <<par, q>>
CanAccept(m) == m.len > 0 /\ Len(q) < Cap
CanDrop(m) == m.len = 0 \/ Len(q) >= Cap
Accept(t) == /\ op[t].st = "write" /\ CanAccept(op[t].m)
             /\ q' = Append(q, op[t].m)
             /\ op' = [op EXCEPT ![t].st = "accepted"]
             /\ UNCHANGED <<par, nw>>
Drop(t) == /\ op[t].st = "write" /\ CanDrop(op[t].m)
           /\ op' = [op EXCEPT ![t].st = IF NilDrop THEN "dropped" ELSE "dropping"]
           /\ UNCHANGED <<par, q, nw>>
(* the drop function is called once with the message *)
DropFn(t, id) == /\ op[t].st = "dropping" /\ op[t].m.id = id
                 /\ op' = [op EXCEPT ![t].st = "dropped"]
                 /\ UNCHANGED <<par, q, nw>>
RetWrite(t, n, err) == /\ \/ op[t].st = "accepted" /\ n = op[t].m.len /\ err = ""
                          \/ op[t].st = "dropped" /\ NilDrop /\ n = op[t].m.len /\ err = ""
                          \/ op[t].st = "dropped" /\ ~NilDrop /\ n = DropN(op[t].m.id) /\ err = DropErr(op[t].m.id)
                       /\ op' = [op EXCEPT ![t] = Idle]
                       /\ UNCHANGED <<par, q, nw>>

(* ---- Next ---- *)
CallNext(t) == /\ op[t].st = "idle"
               /\ \A u \in Thr : op[u].st \notin {"next", "viewing", "viewed", "taken", "none"}
               /\ op' = [op EXCEPT ![t] = [st |-> "next", id |-> 0]]
               /\ UNCHANGED <<par, q, nw>>
ViewStart(t, id) == /\ op[t].st = "next" /\ q # <<>> /\ Head(q).id = id
                    /\ op' = [op EXCEPT ![t].st = "viewing", ![t].id = id]
                    /\ UNCHANGED <<par, q, nw>>
(* the bytes are the same when the view function is about to return *)
ViewEnd(t, id) == /\ op[t].st = "viewing" /\ op[t].id = id
                  /\ op' = [op EXCEPT ![t].st = "viewed"]
                  /\ UNCHANGED <<par, q, nw>>
Take(t) == /\ op[t].st = "viewed"
           /\ q' = Tail(q)
           /\ op' = [op EXCEPT ![t].st = "taken"]
           /\ UNCHANGED <<par, nw>>
(* without a view function the message is just removed *)
TakeSilent(t) == /\ op[t].st = "next" /\ q # <<>>
                 /\ q' = Tail(q)
                 /\ op' = [op EXCEPT ![t].st = "taken"]
                 /\ UNCHANGED <<par, nw>>
None(t) == /\ op[t].st = "next" /\ q = <<>>
           /\ op' = [op EXCEPT ![t].st = "none"]
           /\ UNCHANGED <<par, q, nw>>
RetNext(t, ok) == /\ op[t].st = IF ok THEN "taken" ELSE "none"
                  /\ op' = [op EXCEPT ![t] = Idle]
                  /\ UNCHANGED <<par, q, nw>>

Step(t) == \/ Accept(t) \/ Drop(t) \/ Take(t) \/ TakeSilent(t) \/ None(t)
           \/ \E m \in Msgs : DropFn(t, m.id) \/ ViewStart(t, m.id) \/ ViewEnd(t, m.id)
           \/ op[t].st \in {"accepted", "dropped"} /\
                \E m \in {op[t].m} : IF op[t].st = "accepted" \/ NilDrop THEN RetWrite(t, m.len, "") ELSE RetWrite(t, DropN(m.id), DropErr(m.id))
           \/ \E ok \in BOOLEAN : RetNext(t, ok)
Next == \E t \in Thr : \/ nw < MaxWrites /\ \E m \in Msgs : CallWrite(t, m)
                       \/ CallNext(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : WF_vars(Step(t))

TypeOK == Len(q) <= Cap /\ \A i \in 1..Len(q) : q[i] \in Msgs /\ q[i].len > 0
Fifo == [][\/ q' = q \/ (q # <<>> /\ q' = Tail(q)) \/ \E m \in Msgs : q' = Append(q, m)]_vars
Returns == \A t \in Thr : op[t].st # "idle" ~> op[t].st = "idle"
=============================================================================
