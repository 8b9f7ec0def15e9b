---------------------------- MODULE DecouplerAlgo ----------------------------
(* The ring of iox/decouplex step by step: a ticket is taken by compare-and-swap, the slot of the ticket is    *)
(* filled and then published in locktab; the reader waits for the publication of the oldest ticket.  Checked   *)
(* to refine Decoupler.tla: the queue is the messages of the tickets from rd up to wr, published or not.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Thr, Msgs, Pars, DropN(_), DropErr(_), MaxWrites

VARIABLES par, rd, wr, lock, buf, op, pc, reg, nw
avars == <<par, rd, wr, lock, buf, op, pc, reg, nw>>
None == [id |-> 0, len |-> 0]
Empty == -1
Slot(i) == i % par.cap

AInit == /\ par \in Pars
         /\ rd = 0 /\ wr = 0 /\ nw = 0
         /\ lock = [i \in 0..par.cap - 1 |-> Empty] /\ buf = [i \in 0..par.cap - 1 |-> None]
         /\ op = [t \in Thr |-> [st |-> "idle"]] /\ pc = [t \in Thr |-> "idle"]
         /\ reg = [t \in Thr |-> [r |-> 0, ts |-> 0]]

Writing(i) == {t \in Thr : pc[t] \in {"fill", "publish"} /\ reg[t].ts = i}
MsgAt(i) == IF Writing(i) # {} THEN LET t == CHOOSE t \in Writing(i) : TRUE IN op[t].m ELSE buf[Slot(i)]
Queue == [k \in 1..(wr - rd) |-> MsgAt(rd + k - 1)]
A == INSTANCE Decoupler WITH q <- Queue

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
St(t, s) == op' = [op EXCEPT ![t].st = s]

(* ---- Write ---- *)
CallWrite(t, m) == /\ pc[t] = "idle" /\ nw < MaxWrites /\ nw' = nw + 1
                   /\ op' = [op EXCEPT ![t] = [st |-> "write", m |-> m]]
                   /\ Go(t, IF m.len = 0 THEN "drop" ELSE "loadr")
                   /\ UNCHANGED <<par, rd, wr, lock, buf, reg>>
LoadR(t) == /\ pc[t] = "loadr" /\ reg' = [reg EXCEPT ![t].r = rd] /\ Go(t, "loadw")
            /\ UNCHANGED <<par, rd, wr, lock, buf, op, nw>>
LoadW(t) == /\ pc[t] = "loadw" /\ reg' = [reg EXCEPT ![t].ts = wr]
            /\ Go(t, IF wr - reg[t].r >= par.cap THEN "again" ELSE "cas")
            /\ UNCHANGED <<par, rd, wr, lock, buf, op, nw>>
(* full: only if no room was made since; the drop takes effect here *)
Again(t) == /\ pc[t] = "again"
            /\ IF rd # reg[t].r THEN Go(t, "loadr") /\ UNCHANGED op
               ELSE Go(t, IF par.nildrop THEN "retw" ELSE "dropfn") /\ St(t, IF par.nildrop THEN "dropped" ELSE "dropping")
            /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
DropEmpty(t) == /\ pc[t] = "drop"
                /\ Go(t, IF par.nildrop THEN "retw" ELSE "dropfn") /\ St(t, IF par.nildrop THEN "dropped" ELSE "dropping")
                /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
DropFn(t) == /\ pc[t] = "dropfn" /\ Go(t, "retw") /\ St(t, "dropped")
             /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF wr = reg[t].ts THEN wr' = wr + 1 /\ Go(t, "fill") /\ St(t, "accepted")
             ELSE Go(t, "loadr") /\ UNCHANGED <<wr, op>>
          /\ UNCHANGED <<par, rd, lock, buf, reg, nw>>
Fill(t) == /\ pc[t] = "fill" /\ buf' = [buf EXCEPT ![Slot(reg[t].ts)] = op[t].m] /\ Go(t, "publish")
           /\ UNCHANGED <<par, rd, wr, lock, op, reg, nw>>
Publish(t) == /\ pc[t] = "publish" /\ lock' = [lock EXCEPT ![Slot(reg[t].ts)] = reg[t].ts] /\ Go(t, "retw")
              /\ UNCHANGED <<par, rd, wr, buf, op, reg, nw>>
RetWrite(t) == /\ pc[t] = "retw" /\ Go(t, "idle") /\ op' = [op EXCEPT ![t] = [st |-> "idle"]]
               /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>

(* ---- Next, by one thread at a time ---- *)
CallNext(t) == /\ pc[t] = "idle" /\ \A u \in Thr : op[u].st \notin {"next", "viewing", "viewed", "taken", "none"}
               /\ op' = [op EXCEPT ![t] = [st |-> "next", id |-> 0]] /\ Go(t, "nread")
               /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
NextRead(t) == /\ pc[t] = "nread" /\ reg' = [reg EXCEPT ![t].r = rd] /\ Go(t, "nwrite")
               /\ UNCHANGED <<par, rd, wr, lock, buf, op, nw>>
NextWrite(t) == /\ pc[t] = "nwrite"
                /\ IF wr = reg[t].r THEN Go(t, "retn") /\ St(t, "none") ELSE Go(t, "wait") /\ UNCHANGED op
                /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
Wait(t) == /\ pc[t] = "wait" /\ lock[Slot(reg[t].r)] # Empty
           /\ \E nil \in BOOLEAN : Go(t, IF nil THEN "free" ELSE "view")
           /\ UNCHANGED <<par, rd, wr, lock, buf, op, reg, nw>>
View(t) == /\ pc[t] = "view" /\ op' = [op EXCEPT ![t].st = "viewing", ![t].id = buf[Slot(reg[t].r)].id] /\ Go(t, "seen")
           /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
(* the view function looks once more before it returns *)
Seen(t) == /\ pc[t] = "seen" /\ buf[Slot(reg[t].r)].id = op[t].id /\ St(t, "viewed") /\ Go(t, "free")
           /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>
Free(t) == /\ pc[t] = "free" /\ lock' = [lock EXCEPT ![Slot(reg[t].r)] = Empty] /\ Go(t, "advance")
           /\ UNCHANGED <<par, rd, wr, buf, op, reg, nw>>
AdvanceR(t) == /\ pc[t] = "advance" /\ rd' = reg[t].r + 1 /\ St(t, "taken") /\ Go(t, "retn")
               /\ UNCHANGED <<par, wr, lock, buf, reg, nw>>
RetNext(t) == /\ pc[t] = "retn" /\ Go(t, "idle") /\ op' = [op EXCEPT ![t] = [st |-> "idle"]]
              /\ UNCHANGED <<par, rd, wr, lock, buf, reg, nw>>

AStep(t) == LoadR(t) \/ LoadW(t) \/ Again(t) \/ DropEmpty(t) \/ DropFn(t) \/ Cas(t) \/ Fill(t) \/ Publish(t) \/ RetWrite(t)
            \/ NextRead(t) \/ NextWrite(t) \/ Wait(t) \/ View(t) \/ Seen(t) \/ Free(t) \/ AdvanceR(t) \/ RetNext(t)
ANext == \E t \in Thr : (\E m \in Msgs : CallWrite(t, m)) \/ CallNext(t) \/ AStep(t)
ASpec == AInit /\ [][ANext]_avars /\ \A t \in Thr : WF_avars(AStep(t))

Refines == A!Spec
NoTear == \A t \in Thr : pc[t] = "seen" => buf[Slot(reg[t].r)].id = op[t].id
Room == wr - rd <= par.cap
=============================================================================
