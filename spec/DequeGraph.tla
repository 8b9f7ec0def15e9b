---- MODULE DequeGraph ----
EXTENDS Deque
VARIABLE st
INSTANCE SeqGraph
====
