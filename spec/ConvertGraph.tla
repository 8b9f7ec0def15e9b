---- MODULE ConvertGraph ----
EXTENDS Convert
VARIABLE st
INSTANCE SeqGraph
====
