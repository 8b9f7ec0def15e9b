---- MODULE StackGraph ----
EXTENDS Stack
VARIABLE st
INSTANCE SeqGraph
====
