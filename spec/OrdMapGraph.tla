---- MODULE OrdMapGraph ----
EXTENDS OrdMap
VARIABLE st
INSTANCE SeqGraph
====
