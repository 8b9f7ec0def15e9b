---- MODULE QueueGraph ----
EXTENDS Queue
VARIABLE st
INSTANCE SeqGraph
====
