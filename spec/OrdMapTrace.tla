---- MODULE OrdMapTrace ----
EXTENDS OrdMap
VARIABLES tid, l, st
INSTANCE SeqTrace
====
