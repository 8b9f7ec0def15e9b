---- MODULE QueueTrace ----
EXTENDS Queue
VARIABLES tid, l, st
INSTANCE SeqTrace
====
