---- MODULE DequeTrace ----
EXTENDS Deque
VARIABLES tid, l, st
INSTANCE SeqTrace
====
