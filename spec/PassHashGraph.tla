---- MODULE PassHashGraph ----
EXTENDS PassHash
VARIABLE st
INSTANCE SeqGraph
====
