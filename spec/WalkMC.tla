------------------------------- MODULE WalkMC --------------------------------
(* Enumerates the trees, printed for the driver, and checks that the depth-first walk with an explicit stack     *)
(* (what the commands do: list a directory once, after its command has run; skip by name; ignore errors)         *)
(* does what Walk asks for, whatever harm each command does.                                                    *)
EXTENDS Walk, TLC, Json
CONSTANTS Names, Harmful, Show
VARIABLES stack    \* entries still to be looked at, innermost directory first
Kinds == {"dir", "file", "link"}
Top(n) == {{[p |-> <<n>>, kind |-> k]} : k \in {"file", "link"}} \cup {{}}
          \cup {{[p |-> <<n>>, kind |-> "dir"]} \cup x : x \in
                  {UNION {f[m] : m \in Names} : f \in [Names -> {{}}]} \cup
                  {{[p |-> <<n, m>>, kind |-> f[m]] : m \in D} : <<D, f>> \in UNION {{<<D, f>> : f \in [D -> {"dir", "file"}]} : D \in SUBSET Names}}}
RECURSIVE Forest(_)
Forest(S) == IF S = {} THEN {{}} ELSE LET n == CHOOSE n \in S : TRUE IN {a \cup b : a \in Top(n), b \in Forest(S \ {n})}
Trees == Forest(Names)
None == [act |-> "none", q |-> <<>>]
Harms == {None} \cup IF Harmful THEN {[act |-> a, q |-> q] : a \in {"rm", "shut"}, q \in Dirs(tree) \ {<<>>}} ELSE {}
Init == /\ tree \in Trees /\ InitWith(tree, {}, {}) /\ stack = <<<<>>>>
        /\ (Show => PrintT(ToJson([tree |-> tree])))
Children(p) == {e.p : e \in {x \in tree : x.p # <<>> /\ Parent(x.p) = p /\ ~Gone(x.p)}}
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE {<<x>> \o o : <<x, o>> \in UNION {{<<x, o>> : o \in Orders(S \ {x})} : x \in S}}
Look == /\ stack # <<>>
        /\ LET p == stack[1] rest == Tail(stack) IN
           IF p \notin Dirs(tree) \/ (p # <<>> /\ p[Len(p)] \in Skip) \/ ~CanEnter(p)
           THEN stack' = rest /\ UNCHANGED wvars
           ELSE \E h \in Harms :
                  /\ done' = Append(done, p) /\ Harm(h) /\ UNCHANGED <<tree, over>>
                  /\ \E o \in IF p \in noenter' \/ (\E q \in gone' : IsPrefix(q, p)) THEN {<<>>} ELSE Orders({c \in Children(p) : ~\E q \in gone' : IsPrefix(q, c)}) :
                       stack' = o \o rest
End == stack = <<>> /\ ~over /\ over' = TRUE /\ UNCHANGED <<tree, noread, noenter, gone, done, stack>>
Next == Look \/ End
Spec == Init /\ [][Next]_<<wvars, stack>>
(* every step of the walk is a step of the specification *)
Abstract == [][\/ \E p \in Wanted(tree), h \in Harms : Run(p, h)
               \/ Finish
               \/ UNCHANGED wvars]_<<wvars, stack>>
Once == \A i, j \in 1..Len(done) : done[i] = done[j] => i = j
=============================================================================
