---- MODULE ListSeqGraph ----
EXTENDS ListSeq
VARIABLE st
INSTANCE SeqGraph
====
