---- MODULE BitSetGraph ----
EXTENDS BitSet
VARIABLE st
INSTANCE SeqGraph
====
