---- MODULE StopwatchTrace ----
EXTENDS Stopwatch
VARIABLES tid, l, st
INSTANCE SeqTrace
====
