---- MODULE SkipMapGraph ----
EXTENDS SkipMap
VARIABLE st
INSTANCE SeqGraph
====
