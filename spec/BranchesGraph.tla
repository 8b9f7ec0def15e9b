---- MODULE BranchesGraph ----
EXTENDS Branches
VARIABLE st
INSTANCE SeqGraph
====
