---- MODULE WorldGraph ----
EXTENDS World
VARIABLE st
INSTANCE SeqGraph
====
