---- MODULE BranchesTrace ----
EXTENDS Branches
VARIABLES tid, l, st
INSTANCE SeqTrace
====
