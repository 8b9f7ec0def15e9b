---- MODULE IntervalGraph ----
EXTENDS Interval
VARIABLE st
INSTANCE SeqGraph
====
