------------------------------- MODULE KillSig ------------------------------
(* osx/closex.HandleKillSig: each registration runs its handler once, on the first kill signal after it, and  *)
(* closes its channel when the handler has returned.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Regs, Kill, Other   \* registrations; signals that count; signals that do not

VARIABLES reg   \* registration -> "none" | "armed" | "signalled" | "running" | "returned" | "closed"
vars == <<reg>>

Init == reg = [r \in Regs |-> "none"]
Register(r) == reg[r] = "none" /\ reg' = [reg EXCEPT ![r] = "armed"]
Send(s) == reg' = IF s \in Kill THEN [r \in Regs |-> IF reg[r] = "armed" THEN "signalled" ELSE reg[r]] ELSE reg
Start(r) == reg[r] = "signalled" /\ reg' = [reg EXCEPT ![r] = "running"]
End(r) == reg[r] = "running" /\ reg' = [reg EXCEPT ![r] = "returned"]
Close(r) == reg[r] = "returned" /\ reg' = [reg EXCEPT ![r] = "closed"]
Poll(r, c) == c = (reg[r] = "closed") /\ UNCHANGED reg
Next == \/ \E r \in Regs : Register(r) \/ Start(r) \/ End(r) \/ Close(r)
        \/ \E s \in Kill \cup Other : Send(s)
Spec == Init /\ [][Next]_vars /\ \A r \in Regs : WF_vars(Start(r)) /\ WF_vars(End(r)) /\ WF_vars(Close(r))
OnlyForward == [][\A r \in Regs : LET Rank(x) == CASE x = "none" -> 0 [] x = "armed" -> 1 [] x = "signalled" -> 2 [] x = "running" -> 3 [] x = "returned" -> 4 [] OTHER -> 5
                                  IN Rank(reg'[r]) >= Rank(reg[r])]_vars
RunsOnlyOnce == [][\A r \in Regs : reg[r] \in {"running", "returned", "closed"} => reg'[r] # "signalled"]_vars
Announced == \A r \in Regs : (reg[r] = "signalled") ~> (reg[r] = "closed")
=============================================================================
