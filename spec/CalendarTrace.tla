---- MODULE CalendarTrace ----
EXTENDS Calendar
VARIABLES tid, l, st
INSTANCE SeqTrace
====
