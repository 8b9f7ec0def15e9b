---- MODULE IntervalTrace ----
EXTENDS Interval
VARIABLES tid, l, st
INSTANCE SeqTrace
====
