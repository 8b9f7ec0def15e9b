-------------------------------- MODULE Walk ---------------------------------
(* The module maintenance commands.  A tree is a set of entries [p, kind] (path as a sequence of names, kind    *)
(* dir, file or link); the root <<>> is always there.  Each visit runs the go command in a directory; the       *)
(* command may do harm: remove a subtree or close a directory to everybody.                                     *)
EXTENDS Integers, Sequences, FiniteSets
Skip == {"vendor", ".git"}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Dirs(tree) == {<<>>} \cup {e.p : e \in {x \in tree : x.kind = "dir"}}
Wanted(tree) == {p \in Dirs(tree) : \A i \in 1..Len(p) : p[i] \notin Skip}
(* mode of directories: noread cannot be listed, noenter cannot be entered *)
VARIABLES tree,     \* entries
          noread, noenter, gone,   \* sets of paths
          done,     \* sequence of directories in which the command ran
          over
wvars == <<tree, noread, noenter, gone, done, over>>
Done == {done[i] : i \in 1..Len(done)}
Gone(p) == \E q \in gone : IsPrefix(q, p)
(* the directory can be reached by listing and entering *)
CanEnter(p) == ~Gone(p) /\ \A i \in 0..Len(p) : SubSeq(p, 1, i) \notin noenter
CanFind(p) == \A i \in 0..(Len(p) - 1) : SubSeq(p, 1, i) \notin noread
InitWith(t, nr, ne) == tree = t /\ noread = nr /\ noenter = ne /\ gone = {} /\ done = <<>> /\ over = FALSE
Harm(h) == /\ gone' = IF h.act = "rm" THEN gone \cup {h.q} ELSE gone
           /\ noenter' = IF h.act = "shut" THEN noenter \cup {h.q} ELSE noenter
           /\ noread' = IF h.act = "shut" THEN noread \cup {h.q} ELSE noread
Run(p, h) == /\ ~over /\ p \in Wanted(tree) /\ p \notin Done /\ (p # <<>> => Parent(p) \in Done) /\ CanEnter(p)
             /\ done' = Append(done, p) /\ Harm(h) /\ UNCHANGED <<tree, over>>
(* the end: every directory that can still be found and entered has had its turn *)
Finish == /\ ~over /\ \A p \in Wanted(tree) : CanEnter(p) /\ CanFind(p) => p \in Done
          /\ over' = TRUE /\ UNCHANGED <<tree, noread, noenter, gone, done>>
=============================================================================
