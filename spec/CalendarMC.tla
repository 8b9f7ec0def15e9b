---- MODULE CalendarMC ----
(* Walks over all days of a range in steps and checks what the property says of the definitions. *)
EXTENDS Calendar
CONSTANTS CLow, CHigh, CStep
VARIABLE day
Init == day \in {(i * CStep) - CLow - Epoch : i \in 0..63}
Next == day + 64 * CStep <= CHigh - Epoch /\ day' = day + 64 * CStep
Spec == Init /\ [][Next]_day
Fine == \A fn \in Fns, x \in CSecs : Good(fn, <<day, x>>)
====
