---- MODULE WorldTrace ----
EXTENDS World
VARIABLES tid, l, st
INSTANCE SeqTrace
====
