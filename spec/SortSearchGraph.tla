---- MODULE SortSearchGraph ----
EXTENDS SortSearch
VARIABLE st
INSTANCE SeqGraph
====
