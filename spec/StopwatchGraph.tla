---- MODULE StopwatchGraph ----
EXTENDS Stopwatch
VARIABLE st
INSTANCE SeqGraph
====
