---- MODULE BitSetTrace ----
EXTENDS BitSet
VARIABLES tid, l, st
INSTANCE SeqTrace
====
