---- MODULE CalendarGraph ----
EXTENDS Calendar
VARIABLE st
INSTANCE SeqGraph
====
