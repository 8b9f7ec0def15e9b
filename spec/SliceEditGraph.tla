---- MODULE SliceEditGraph ----
EXTENDS SliceEdit
VARIABLE st
INSTANCE SeqGraph
====
