---- MODULE SortSearchTrace ----
EXTENDS SortSearch
VARIABLES tid, l, st
INSTANCE SeqTrace
====
