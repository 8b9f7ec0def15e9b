---- MODULE SliceEditTrace ----
(* A long Shuffle has too many outcomes to enumerate: its recorded result is judged instead. *)
EXTENDS SliceEdit
VARIABLES tid, l, st
JDo(s, o) == IF o.op = "Shuffled" THEN {} ELSE Do(s, o)
T == INSTANCE SeqTrace WITH Do <- JDo
TraceNext == \/ T!TraceNext
             \/ /\ l <= Len(T!Ev(tid))
                /\ LET e == T!Ev(tid)[l] IN
                   /\ e.k = "op" /\ e.o.op = "Shuffled"
                   /\ LET q == e.r.a[e.o.h] IN
                      /\ SameElements(st.a[e.o.h], q)
                      /\ st' = [a |-> [st.a EXCEPT ![e.o.h] = q], p |-> <<>>]
                      /\ e.r = [r |-> <<>>, a |-> st'.a, ok |-> TRUE]
                /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == T!TraceInit /\ [][TraceNext]_<<tid, l, st>>
Constr == T!Constr
====
