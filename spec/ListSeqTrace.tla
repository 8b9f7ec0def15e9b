---- MODULE ListSeqTrace ----
EXTENDS ListSeq
VARIABLES tid, l, st
INSTANCE SeqTrace
====
